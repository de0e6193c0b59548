package eng

import (
	"go/constant"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

const (
	okReg = iota
	okConst
	okNone
)

type Opnd struct {
	kind int
	idx  int
	val  Value
}

type Instr struct {
	in  ssa.Instruction
	ops []Opnd
	dst int
	ext interface{} // per-instruction cache
}

type FnInfo struct {
	fn     *ssa.Function
	nregs  int
	blocks [][]Instr
	idx    map[ssa.Value]int
	ipdom  []int // immediate post-dominator per block, -1 = function exit
	liveIn []bitset
	live   map[[2]int]bitset
	nphi   []int
	name   string
	intr   intrinsic
	redir  *ssa.Function
}

type bitset []uint64

func newBitset(n int) bitset    { return make(bitset, (n+63)/64) }
func (b bitset) has(i int) bool { return b[i>>6]>>(i&63)&1 != 0 }
func (b bitset) set(i int)      { b[i>>6] |= 1 << (i & 63) }
func (b bitset) clear(i int)    { b[i>>6] &^= 1 << (i & 63) }
func (b bitset) orInto(o bitset) bool {
	ch := false
	for i := range b {
		n := b[i] | o[i]
		if n != b[i] {
			b[i] = n
			ch = true
		}
	}
	return ch
}
func (b bitset) copy() bitset { return append(bitset(nil), b...) }

func (e *Engine) info(fn *ssa.Function) *FnInfo {
	if fi, ok := e.fns[fn]; ok {
		return fi
	}
	if _, isI := intrinsics[fnName(fn)]; !isI {
		var rr [16]*ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, r := range in.Operands(rr[:0]) {
					if g, ok := (*r).(*ssa.Global); ok {
						e.ensureInit(g.Pkg)
					}
				}
			}
		}
		if fi, ok := e.fns[fn]; ok {
			return fi
		}
	}
	fi := &FnInfo{fn: fn, idx: map[ssa.Value]int{}, live: map[[2]int]bitset{}, name: fnName(fn)}
	e.fns[fn] = fi
	if in, ok := intrinsics[fi.name]; ok {
		fi.intr = in
		return fi
	}
	if r, ok := redirects[fi.name]; ok {
		if target := e.prog.lookup(r); target != nil {
			fi.redir = target
			return fi
		}
	}
	if len(fn.Blocks) == 0 {
		return fi
	}
	add := func(v ssa.Value) int {
		i := fi.nregs
		fi.idx[v] = i
		fi.nregs++
		return i
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.blocks = make([][]Instr, len(fn.Blocks))
	fi.nphi = make([]int, len(fn.Blocks))
	var rands [16]*ssa.Value
	for bi, b := range fn.Blocks {
		ins := make([]Instr, len(b.Instrs))
		for i, in := range b.Instrs {
			x := Instr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				x.dst = fi.idx[v]
			}
			if _, ok := in.(*ssa.Phi); ok {
				fi.nphi[bi]++
			}
			for _, r := range in.Operands(rands[:0]) {
				if *r == nil {
					x.ops = append(x.ops, Opnd{kind: okNone})
					continue
				}
				x.ops = append(x.ops, e.operand(fi, *r))
			}
			ins[i] = x
		}
		fi.blocks[bi] = ins
	}
	fi.computePdom()
	fi.computeLive()
	return fi
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (e *Engine) operand(fi *FnInfo, v ssa.Value) Opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return Opnd{kind: okConst, val: e.constVal(x)}
	case *ssa.Global:
		e.ensureInit(x.Pkg)
		return Opnd{kind: okConst, val: PtrV{e.global(x), 0}}
	case *ssa.Function:
		return Opnd{kind: okConst, val: &FuncV{fn: x}}
	case *ssa.Builtin:
		return Opnd{kind: okConst, val: &FuncV{builtin: x}}
	}
	i, ok := fi.idx[v]
	if !ok {
		unsup("operand %v in %v", v, fi.fn)
	}
	return Opnd{kind: okReg, idx: i}
}

func (e *Engine) global(g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		return id
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	id := e.allocT(nil, t)
	e.globals[g] = id
	return id
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		unsup("const of type parameter")
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsup("const type %v", t)
	}
	return e.basicConst(c.Value, b)
}

func (e *Engine) basicConst(v constant.Value, b *types.Basic) Value {
	if w, ok := intWidth(b); ok {
		iv := constant.ToInt(v)
		if i, ok := constant.Int64Val(iv); ok {
			return e.ctx.K(w, uint64(i))
		}
		if u, ok := constant.Uint64Val(iv); ok {
			return e.ctx.K(w, u)
		}
		unsup("int const %v", v)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return e.ctx.B(constant.BoolVal(v))
	case b.Info()&types.IsString != 0:
		if v.Kind() == constant.Int { // string(rune) conversion constant
			i, _ := constant.Int64Val(v)
			return e.constStr(string(rune(i)))
		}
		return e.constStr(constant.StringVal(v))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(v)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return FloatV(f)
	case b.Info()&types.IsComplex != 0:
		return ComplexV(0)
	}
	_ = math.Pi
	unsup("const kind %v", b)
	return nil
}

// ---------- post-dominators ----------

func (fi *FnInfo) computePdom() {
	n := len(fi.fn.Blocks)
	exit := n
	// reverse post-order on the reversed CFG from the virtual exit
	preds := make([][]int, n+1) // predecessors in reversed graph = successors in CFG
	succs := make([][]int, n+1)
	for i, b := range fi.fn.Blocks {
		if len(b.Succs) == 0 {
			preds[i] = append(preds[i], exit)
			succs[exit] = append(succs[exit], i)
		}
		for _, s := range b.Succs {
			preds[i] = append(preds[i], s.Index)
			succs[s.Index] = append(succs[s.Index], i)
		}
	}
	order := []int{}
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	var dfs func(int)
	dfs = func(x int) {
		num[x] = 0
		for _, s := range succs[x] {
			if num[s] == -1 {
				dfs(s)
			}
		}
		order = append(order, x)
	}
	dfs(exit)
	for i, x := range order {
		num[x] = i
	}
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[exit] = exit
	for changed := true; changed; {
		changed = false
		for i := len(order) - 2; i >= 0; i-- {
			x := order[i]
			nd := -1
			for _, p := range preds[x] {
				if num[p] == -1 || idom[p] == -1 {
					continue
				}
				if nd == -1 {
					nd = p
					continue
				}
				a, b := p, nd
				for a != b {
					for num[a] < num[b] {
						a = idom[a]
					}
					for num[b] < num[a] {
						b = idom[b]
					}
				}
				nd = a
			}
			if nd != -1 && idom[x] != nd {
				idom[x] = nd
				changed = true
			}
		}
	}
	fi.ipdom = make([]int, n)
	for i := 0; i < n; i++ {
		fi.ipdom[i] = idom[i]
		if idom[i] == exit {
			fi.ipdom[i] = -1
		}
	}
}

// ---------- liveness ----------

func (fi *FnInfo) computeLive() {
	n := len(fi.blocks)
	fi.liveIn = make([]bitset, n)
	liveOut := make([]bitset, n)
	for i := range fi.liveIn {
		fi.liveIn[i] = newBitset(fi.nregs)
		liveOut[i] = newBitset(fi.nregs)
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fi.fn.Blocks[i]
			out := liveOut[i]
			for _, s := range b.Succs {
				out.orInto(fi.liveIn[s.Index])
				// phi uses along this edge
				for k := 0; k < fi.nphi[s.Index]; k++ {
					ph := &fi.blocks[s.Index][k]
					for pi, p := range s.Preds {
						if p == b && ph.ops[pi].kind == okReg {
							out.set(ph.ops[pi].idx)
						}
					}
				}
			}
			if fi.fn.Recover != nil {
				out.orInto(fi.liveIn[fi.fn.Recover.Index])
			}
			in := out.copy()
			for k := len(fi.blocks[i]) - 1; k >= 0; k-- {
				fi.transfer(&fi.blocks[i][k], in)
			}
			if fi.liveIn[i].orInto(in) {
				changed = true
			}
		}
	}
	fi.live[[2]int{-1, -1}] = nil
	for i := range liveOut {
		fi.live[[2]int{i, len(fi.blocks[i])}] = liveOut[i]
	}
}

func (fi *FnInfo) transfer(x *Instr, live bitset) {
	if x.dst >= 0 {
		live.clear(x.dst)
	}
	if _, ok := x.in.(*ssa.Phi); ok {
		return
	}
	for _, o := range x.ops {
		if o.kind == okReg {
			live.set(o.idx)
		}
	}
}

// liveBefore returns the registers live before instruction pc of a block.
func (fi *FnInfo) liveBefore(block, pc int) bitset {
	k := [2]int{block, pc}
	if l, ok := fi.live[k]; ok {
		return l
	}
	l := fi.liveBefore(block, pc+1).copy()
	fi.transfer(&fi.blocks[block][pc], l)
	// phi destinations of this block that are live are kept (pc is past the phis)
	fi.live[k] = l
	return l
}
