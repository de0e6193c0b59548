// Package eng is a symbolic executor for Go SSA with an SMT back end.
package eng

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	OShl
	OLShr
	OAShr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OZExt
	OSExt
	OExtract // k = lo ; width = w
	OBAnd
	OBOr
	OBNot
)

var opNames = map[Op]string{
	OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OIte: "ite", OBAnd: "and", OBOr: "or", OBNot: "not",
}

// Term is a hash-consed bit-vector (w>0) or Boolean (w==0) term.
type Term struct {
	id      uint32
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	vars    *VarSet
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}

// VarSet is an interned sorted set of variable ids.
type VarSet struct {
	id uint32
	v  []int32
}

type VarInfo struct {
	Name  string
	W     uint8
	Label string
	Term  *Term
}

type Ctx struct {
	tab     map[termKey]*Term
	nterm   uint32
	vars    []*VarInfo
	byName  map[string]int32
	small   [65][257]*Term
	True    *Term
	False   *Term
	vsets   map[string]*VarSet
	vunion  map[[2]uint32]*VarSet
	empty   *VarSet
	bsets   map[uint32]*Bset
	nvset   uint32
	evalGen []uint32
	evalVal []uint64
	gen     uint32
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[termKey]*Term{}, byName: map[string]int32{}, vsets: map[string]*VarSet{}, vunion: map[[2]uint32]*VarSet{}, bsets: map[uint32]*Bset{}}
	c.empty = &VarSet{}
	c.vsets[""] = c.empty
	c.nvset = 1
	c.False = c.mk(OConst, 0, nil, nil, nil, 0)
	c.True = c.mk(OConst, 0, nil, nil, nil, 1)
	return c
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *Ctx) mk(op Op, w uint8, a, b, d *Term, k uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(d), k}
	if t, ok := c.tab[key]; ok {
		return t
	}
	c.nterm++
	t := &Term{id: c.nterm, op: op, w: w, a: a, b: b, c: d, k: k}
	vs := c.empty
	if a != nil {
		vs = a.vars
	}
	if b != nil {
		vs = c.union(vs, b.vars)
	}
	if d != nil {
		vs = c.union(vs, d.vars)
	}
	t.vars = vs
	c.tab[key] = t
	return t
}

func vkey(v []int32) string {
	var sb strings.Builder
	for _, x := range v {
		sb.WriteByte(byte(x))
		sb.WriteByte(byte(x >> 8))
		sb.WriteByte(byte(x >> 16))
	}
	return sb.String()
}

func (c *Ctx) internVS(v []int32) *VarSet {
	k := vkey(v)
	if s, ok := c.vsets[k]; ok {
		return s
	}
	s := &VarSet{id: c.nvset, v: v}
	c.nvset++
	c.vsets[k] = s
	return s
}

func (c *Ctx) union(a, b *VarSet) *VarSet {
	if a == b || len(b.v) == 0 {
		return a
	}
	if len(a.v) == 0 {
		return b
	}
	k := [2]uint32{a.id, b.id}
	if k[0] > k[1] {
		k[0], k[1] = k[1], k[0]
	}
	if s, ok := c.vunion[k]; ok {
		return s
	}
	out := make([]int32, 0, len(a.v)+len(b.v))
	i, j := 0, 0
	for i < len(a.v) || j < len(b.v) {
		switch {
		case i == len(a.v):
			out = append(out, b.v[j])
			j++
		case j == len(b.v):
			out = append(out, a.v[i])
			i++
		case a.v[i] == b.v[j]:
			out = append(out, a.v[i])
			i++
			j++
		case a.v[i] < b.v[j]:
			out = append(out, a.v[i])
			i++
		default:
			out = append(out, b.v[j])
			j++
		}
	}
	s := c.internVS(out)
	c.vunion[k] = s
	return s
}

func (c *Ctx) Var(name, label string, w uint8) *Term {
	if id, ok := c.byName[name]; ok {
		return c.vars[id].Term
	}
	id := int32(len(c.vars))
	c.byName[name] = id
	vi := &VarInfo{Name: name, W: w, Label: label}
	c.nterm++
	t := &Term{id: c.nterm, op: OVar, w: w, k: uint64(id)}
	t.vars = c.internVS([]int32{id})
	vi.Term = t
	c.vars = append(c.vars, vi)
	return t
}

func (c *Ctx) K(w uint8, v uint64) *Term {
	if w == 0 {
		return c.B(v != 0)
	}
	v &= mask(w)
	if v <= 256 {
		if t := c.small[w][v]; t != nil {
			return t
		}
		t := c.mk(OConst, w, nil, nil, nil, v)
		c.small[w][v] = t
		return t
	}
	return c.mk(OConst, w, nil, nil, nil, v)
}

func (c *Ctx) B(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (t *Term) IsConst() bool { return t.op == OConst }

func (c *Ctx) Not(a *Term) *Term { // boolean
	if a.op == OConst {
		return c.B(a.k == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(OBNot, 0, a, nil, nil, 0)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBAnd, 0, a, b, nil, 0)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBOr, 0, a, b, nil, 0)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.op == OConst {
		if cond.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.op == OBNot {
		cond = cond.a
		a, b = b, a
	}
	if a.w == 0 {
		if a.op == OConst && b.op == OConst {
			if a.k != 0 {
				return cond
			}
			return c.Not(cond)
		}
		if a.op == OConst {
			if a.k != 0 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.op == OConst {
			if b.k != 0 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	if a.op == OIte && a.a == cond {
		a = a.b
	}
	if b.op == OIte && b.a == cond {
		b = b.c
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, cond, a, b, 0)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return c.False
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.k != 0 {
				return b
			}
			return c.Not(b)
		}
		if b.op == OConst {
			if b.k != 0 {
				return a
			}
			return c.Not(a)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		switch a.op {
		case OZExt:
			if b.k > mask(a.a.w) {
				return c.False
			}
			return c.Eq(a.a, c.K(a.a.w, b.k))
		case OAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.K(a.w, b.k-a.b.k))
			}
		case OXor:
			if a.b.op == OConst {
				return c.Eq(a.a, c.K(a.w, b.k^a.b.k))
			}
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OAnd:
			if a.b.op == OConst && b.k&^a.b.k != 0 {
				return c.False
			}
		case OOr:
			if a.b.op == OConst && a.b.k&^b.k != 0 {
				return c.False
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(OEq, 0, a, b, nil, 0)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst {
		return c.B(a.k < b.k)
	}
	if b.op == OConst {
		if b.k == 0 {
			return c.False
		}
		if b.k == 1 {
			return c.Eq(a, c.K(a.w, 0))
		}
		if a.op == OZExt {
			if b.k > mask(a.a.w) {
				return c.True
			}
			return c.Ult(a.a, c.K(a.a.w, b.k))
		}
	}
	if a.op == OConst {
		if a.k == mask(a.w) {
			return c.False
		}
		if a.k == 0 {
			return c.Not(c.Eq(b, a))
		}
		if b.op == OZExt {
			if a.k >= mask(b.a.w) {
				return c.False
			}
			return c.Ult(c.K(b.a.w, a.k), b.a)
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.mk(OUlt, 0, a, b, nil, 0)
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func nonneg(t *Term) bool {
	switch t.op {
	case OConst:
		return t.k>>(t.w-1) == 0
	case OZExt:
		return true
	case OIte:
		return nonneg(t.b) && nonneg(t.c)
	case OAnd:
		return nonneg(t.a) || nonneg(t.b)
	case OURem:
		return t.b.op == OConst && nonneg(t.b)
	case OLShr:
		return t.b.op == OConst && t.b.k > 0
	}
	return false
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst {
		return c.B(sext(a.k, a.w) < sext(b.k, b.w))
	}
	na, nb := nonneg(a), nonneg(b)
	if na && nb {
		return c.Ult(a, b)
	}
	if na && b.op == OConst { // b negative
		return c.False
	}
	if nb && a.op == OConst {
		return c.True
	}
	// a+k < const with a zext: keep simple by width analysis
	if a.op == OAdd && a.b.op == OConst && a.a.op == OZExt && b.op == OConst && a.a.a.w < a.w-1 {
		// no wrap-around possible when |k| small
		k := sext(a.b.k, a.w)
		if k > -(1<<30) && k < (1<<30) {
			r := sext(b.k, b.w) - k
			if r <= 0 {
				return c.False
			}
			return c.Ult(a.a, c.K(a.w, uint64(r)))
		}
	}
	if b.op == OAdd && b.b.op == OConst && b.a.op == OZExt && a.op == OConst && b.a.a.w < b.w-1 {
		k := sext(b.b.k, b.w)
		if k > -(1<<30) && k < (1<<30) {
			r := sext(a.k, a.w) - k
			if r < 0 {
				return c.True
			}
			return c.Ult(c.K(a.w, uint64(r)), b.a)
		}
	}
	return c.mk(OSlt, 0, a, b, nil, 0)
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func fold(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		s := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	}
	panic("fold")
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %v width %d %d", opNames[op], a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return c.K(w, fold(op, w, a.k, b.k))
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.op == OConst {
			a, b = b, a
		}
	}
	if b.op == OConst {
		switch op {
		case OAdd:
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return c.Bin(OAdd, a.a, c.K(w, a.b.k+b.k))
			}
		case OMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		case OAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OZExt && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			if a.op == OZExt && b.k <= mask(a.a.w) {
				return c.ZExt(c.Bin(OAnd, a.a, c.K(a.a.w, b.k)), w)
			}
		case OOr:
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return b
			}
		case OXor:
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return c.BNot(a)
			}
		case OShl, OLShr:
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return c.K(w, 0)
			}
			if op == OLShr && a.op == OZExt && b.k >= uint64(a.a.w) {
				return c.K(w, 0)
			}
			if op == OLShr && a.op == OZExt {
				return c.ZExt(c.Bin(OLShr, a.a, c.K(a.a.w, b.k)), w)
			}
		case OAShr:
			if b.k == 0 {
				return a
			}
		case OUDiv, OSDiv:
			if b.k == 1 {
				return a
			}
			if op == OSDiv && nonneg(a) && nonneg(b) {
				return c.Bin(OUDiv, a, b)
			}
			if op == OUDiv && a.op == OZExt {
				if b.k > mask(a.a.w) {
					return c.K(w, 0)
				}
				if b.k != 0 {
					return c.ZExt(c.Bin(OUDiv, a.a, c.K(a.a.w, b.k)), w)
				}
			}
		case OURem, OSRem:
			if op == OSRem && nonneg(a) && nonneg(b) {
				return c.Bin(OURem, a, b)
			}
			if op == OURem && b.k == 1 {
				return c.K(w, 0)
			}
			if op == OURem && a.op == OZExt && b.k != 0 {
				if b.k > mask(a.a.w) {
					return a
				}
				return c.ZExt(c.Bin(OURem, a.a, c.K(a.a.w, b.k)), w)
			}
		}
		// distribute over ite with constant leaves (keeps tables small)
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
		}
	} else {
		if a == b {
			switch op {
			case OAnd, OOr:
				return a
			case OXor:
				return c.K(w, 0)
			}
		}
		if a.op == OConst && a.k == 0 {
			switch op {
			case OShl, OLShr, OAShr, OUDiv, OURem, OSRem:
				if op != OUDiv && op != OURem && op != OSRem {
					return a
				}
			}
		}
		switch op {
		case OAdd, OMul, OAnd, OOr, OXor:
			if a.id > b.id {
				a, b = b, a
			}
		}
	}
	return c.mk(op, w, a, b, nil, 0)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.op == OConst {
		return c.K(a.w, -a.k)
	}
	return c.Bin(OAdd, c.BNot(a), c.K(a.w, 1))
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.K(a.w, 0)
	}
	if b.op == OConst {
		return c.Bin(OAdd, a, c.K(a.w, -b.k))
	}
	return c.Bin(OAdd, a, c.Neg(b))
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.op == OConst {
		return c.K(a.w, ^a.k)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, a.w, a, nil, nil, 0)
}

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.K(w, a.k)
	}
	if a.op == OZExt {
		return c.ZExt(a.a, w)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.ZExt(a.b, w), c.ZExt(a.c, w))
	}
	return c.mk(OZExt, w, a, nil, nil, 0)
}

func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.K(w, uint64(sext(a.k, a.w)))
	}
	if nonneg(a) {
		return c.ZExt(a, w)
	}
	return c.mk(OSExt, w, a, nil, nil, 0)
}

func (c *Ctx) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.K(w, a.k)
	}
	switch a.op {
	case OZExt, OSExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.op == OZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	case OExtract:
		if a.k == 0 {
			return c.Trunc(a.a, w)
		}
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
		}
	case OAnd, OOr, OXor, OAdd:
		return c.Bin(a.op, c.Trunc(a.a, w), c.Trunc(a.b, w))
	}
	return c.mk(OExtract, w, a, nil, nil, 0)
}

// ---------- evaluation under a model ----------

type Model []uint64 // indexed by var id; missing = 0

func (m Model) get(i int32) uint64 {
	if int(i) < len(m) {
		return m[i]
	}
	return 0
}

func (m Model) with(i int32, v uint64) Model {
	n := len(m)
	if int(i) >= n {
		n = int(i) + 1
	}
	out := make(Model, n)
	copy(out, m)
	out[i] = v
	return out
}

func (c *Ctx) newGen() {
	c.gen++
	if int(c.nterm)+1 > len(c.evalGen) {
		n := int(c.nterm)*2 + 1024
		g := make([]uint32, n)
		copy(g, c.evalGen)
		v := make([]uint64, n)
		copy(v, c.evalVal)
		c.evalGen, c.evalVal = g, v
	}
}

func (c *Ctx) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.op == OVar {
		return m.get(int32(t.k))
	}
	c.newGen()
	return c.ev(t, m)
}

func (c *Ctx) ev(t *Term, m Model) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m.get(int32(t.k))
	}
	if c.evalGen[t.id] == c.gen {
		return c.evalVal[t.id]
	}
	var r uint64
	switch t.op {
	case OIte:
		if c.ev(t.a, m) != 0 {
			r = c.ev(t.b, m)
		} else {
			r = c.ev(t.c, m)
		}
	case OBAnd:
		if c.ev(t.a, m) != 0 {
			r = c.ev(t.b, m)
		}
	case OBOr:
		if c.ev(t.a, m) != 0 {
			r = 1
		} else {
			r = c.ev(t.b, m)
		}
	case OBNot:
		r = 1 ^ c.ev(t.a, m)
	default:
		x := c.ev(t.a, m)
		var y uint64
		if t.b != nil {
			y = c.ev(t.b, m)
		}
		r = evop(t, x, y)
	}
	c.evalGen[t.id] = c.gen
	c.evalVal[t.id] = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evop(t *Term, x, y uint64) uint64 {
	switch t.op {
	case ONot:
		return ^x & mask(t.w)
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sext(x, t.a.w) < sext(y, t.a.w))
	case OSle:
		return b2u(sext(x, t.a.w) <= sext(y, t.a.w))
	case OZExt:
		return x
	case OSExt:
		return uint64(sext(x, t.a.w)) & mask(t.w)
	case OExtract:
		return (x >> t.k) & mask(t.w)
	}
	return fold(t.op, t.w, x, y)
}

// ---------- byte-domain sets ----------

// Bset is the set of values of a single 8-bit (or narrower) variable.
type Bset [4]uint64

func (b *Bset) has(v uint64) bool { return b[v>>6]>>(v&63)&1 != 0 }
func (b *Bset) and(o *Bset) Bset {
	return Bset{b[0] & o[0], b[1] & o[1], b[2] & o[2], b[3] & o[3]}
}
func (b *Bset) or(o *Bset) Bset {
	return Bset{b[0] | o[0], b[1] | o[1], b[2] | o[2], b[3] | o[3]}
}
func (b *Bset) empty() bool { return b[0]|b[1]|b[2]|b[3] == 0 }
func (b *Bset) count() int {
	return bits.OnesCount64(b[0]) + bits.OnesCount64(b[1]) + bits.OnesCount64(b[2]) + bits.OnesCount64(b[3])
}
func (b *Bset) first() uint64 {
	for i, w := range b {
		if w != 0 {
			return uint64(i*64 + bits.TrailingZeros64(w))
		}
	}
	return 0
}

// pick prefers a printable member, to make witnesses readable.
func (b *Bset) pick() uint64 {
	for v := uint64('a'); v <= 'z'; v++ {
		if b.has(v) {
			return v
		}
	}
	for v := uint64(33); v < 127; v++ {
		if b.has(v) {
			return v
		}
	}
	return b.first()
}

func fullBset(w uint8) Bset {
	if w >= 8 {
		o := ^uint64(0)
		return Bset{o, o, o, o}
	}
	if w == 0 {
		w = 1
	}
	n := uint64(1) << w
	var b Bset
	for v := uint64(0); v < n; v++ {
		b[v>>6] |= 1 << (v & 63)
	}
	return b
}

// singleByte reports the variable when t depends on exactly one variable of width <= 8.
func (c *Ctx) singleByte(t *Term) (int32, bool) {
	if len(t.vars.v) != 1 {
		return 0, false
	}
	v := t.vars.v[0]
	w := c.vars[v].W
	return v, w <= 8
}

// BsetOf computes the satisfying set of a Boolean single-byte term.
func (c *Ctx) BsetOf(t *Term) *Bset {
	if b, ok := c.bsets[t.id]; ok {
		return b
	}
	var r Bset
	v := t.vars.v[0]
	if t.op == OBNot {
		x := c.BsetOf(t.a)
		f := fullBset(c.vars[v].W)
		r = Bset{f[0] &^ x[0], f[1] &^ x[1], f[2] &^ x[2], f[3] &^ x[3]}
	} else {
		n := uint64(1) << max(c.vars[v].W, 1)
		m := make(Model, v+1)
		for x := uint64(0); x < n; x++ {
			m[v] = x
			if c.Eval(t, m) != 0 {
				r[x>>6] |= 1 << (x & 63)
			}
		}
	}
	c.bsets[t.id] = &r
	return &r
}

// ---------- SMT-LIB printing ----------

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(w uint8, k uint64) string {
	if w == 0 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		return constStr(t.w, t.k)
	case OVar:
		return fmt.Sprintf("v%d", t.k)
	}
	if d == 0 {
		return "..."
	}
	s := "(" + t.opString()
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}

func (t *Term) opString() string {
	switch t.op {
	case OZExt:
		return fmt.Sprintf("(_ zero_extend %d)", t.w-t.a.w)
	case OSExt:
		return fmt.Sprintf("(_ sign_extend %d)", t.w-t.a.w)
	case OExtract:
		return fmt.Sprintf("(_ extract %d %d)", t.k+uint64(t.w)-1, t.k)
	}
	return opNames[t.op]
}
