package eng

import "go/types"

// mergeAll merges parked states where their structure agrees.
func (e *Engine) mergeAll(ss []*State) []*State {
	for _, s := range ss {
		e.prune(s)
	}
	out := ss[:0:0]
	for _, s := range ss {
		merged := false
		for i, o := range out {
			if m := e.merge(o, s); m != nil {
				out[i] = m
				merged = true
				e.Stats.Merges++
				break
			}
		}
		if !merged {
			out = append(out, s)
		}
	}
	return out
}

// prune drops dead registers.
func (e *Engine) prune(s *State) {
	t := s.thread()
	for i := range t.frames {
		f := s.frameAt(t, i)
		live := f.fi.liveBefore(f.block, f.pc)
		for k := range f.regs {
			if f.regs[k] != nil && !live.has(k) {
				f.regs[k] = nil
			}
		}
	}
}

type merger struct {
	e    *Engine
	a, b *State
	cond *Term
	ok   bool
	n    int
}

func (m *merger) val(x, y Value) Value {
	if !m.ok {
		return nil
	}
	switch p := x.(type) {
	case nil:
		if y == nil {
			return nil
		}
	case *Term:
		q, ok := y.(*Term)
		if !ok || p.w != q.w {
			break
		}
		if p == q {
			return p
		}
		if p.w > 8 && (p.op == OConst || q.op == OConst) {
			break // integers often drive control and sizes: keep paths apart
		}
		m.n++
		if m.n > 64 {
			break
		}
		return m.e.ctx.Ite(m.cond, p, q)
	case StrV:
		if q, ok := y.(StrV); ok && p == q {
			return p
		}
	case SliceV:
		if q, ok := y.(SliceV); ok && p == q {
			return p
		}
	case PtrV:
		if q, ok := y.(PtrV); ok && p == q {
			return p
		}
	case SymPtrV:
		if q, ok := y.(SymPtrV); ok && p == q {
			return p
		}
	case MapV:
		if q, ok := y.(MapV); ok && p == q {
			return p
		}
	case ChanV:
		if q, ok := y.(ChanV); ok && p == q {
			return p
		}
	case IterV:
		if q, ok := y.(IterV); ok && p == q {
			return p
		}
	case FloatV:
		if q, ok := y.(FloatV); ok && p == q {
			return p
		}
	case UnsafeV:
		if q, ok := y.(UnsafeV); ok {
			return UnsafeV{m.val(p.v, q.v)}
		}
	case *FuncV:
		q, ok := y.(*FuncV)
		if !ok {
			break
		}
		if p == q {
			return p
		}
		if p == nil || q == nil || p.fn != q.fn || p.builtin != q.builtin || len(p.bind) != len(q.bind) {
			break
		}
		n := &FuncV{fn: p.fn, builtin: p.builtin, bind: make([]Value, len(p.bind))}
		for i := range p.bind {
			n.bind[i] = m.val(p.bind[i], q.bind[i])
		}
		return n
	case IfaceV:
		q, ok := y.(IfaceV)
		if !ok {
			break
		}
		if p.t == nil || q.t == nil {
			if p.t == nil && q.t == nil {
				return p
			}
			break
		}
		if p.t != q.t && !types.Identical(p.t, q.t) {
			break
		}
		return IfaceV{p.t, m.val(p.v, q.v)}
	case TupleV:
		q, ok := y.(TupleV)
		if !ok || len(p) != len(q) {
			break
		}
		n := make(TupleV, len(p))
		for i := range p {
			n[i] = m.val(p[i], q[i])
		}
		return n
	case AggV:
		q, ok := y.(AggV)
		if !ok || len(p) != len(q) {
			break
		}
		n := make(AggV, len(p))
		for i := range p {
			n[i] = m.val(p[i], q[i])
		}
		return n
	case Poison:
		if _, ok := y.(Poison); ok {
			return p
		}
	}
	m.ok = false
	return nil
}

func (m *merger) obj(x, y *Obj) *Obj {
	if x == y {
		return x
	}
	if len(x.cells) != len(y.cells) || len(x.ent) != len(y.ent) || x.frozen != y.frozen || (x.ch == nil) != (y.ch == nil) || (x.it == nil) != (y.it == nil) {
		m.ok = false
		return nil
	}
	n := &Obj{owner: 0, typ: x.typ, frozen: x.frozen}
	n.cells = make([]Value, len(x.cells))
	for i := range x.cells {
		n.cells[i] = m.val(x.cells[i], y.cells[i])
		if !m.ok {
			return nil
		}
	}
	if len(x.ent) > 0 {
		n.ent = make([]mapEntry, len(x.ent))
		for i := range x.ent {
			k := m.val(x.ent[i].k, y.ent[i].k)
			n.ent[i] = mapEntry{k, m.val(x.ent[i].v, y.ent[i].v)}
		}
	}
	if x.ch != nil {
		if len(x.ch.buf) != len(y.ch.buf) || x.ch.closed != y.ch.closed || x.ch.cap != y.ch.cap {
			m.ok = false
			return nil
		}
		c := *x.ch
		c.buf = make([]Value, len(x.ch.buf))
		for i := range c.buf {
			c.buf[i] = m.val(x.ch.buf[i], y.ch.buf[i])
		}
		n.ch = &c
	}
	if x.it != nil {
		a, b := x.it, y.it
		if a.pos != b.pos || a.i != b.i || a.m != b.m || len(a.keys) != len(b.keys) || (a.str == nil) != (b.str == nil) || (a.str != nil && *a.str != *b.str) {
			m.ok = false
			return nil
		}
		c := *a
		n.it = &c
	}
	return n
}

func sameLoc(a, b *State) bool {
	if len(a.threads) != 1 || len(b.threads) != 1 {
		return false
	}
	x, y := a.threads[0].frames, b.threads[0].frames
	if len(x) != len(y) || len(a.heap) != len(b.heap) && false {
		return false
	}
	for i := range x {
		f, g := x[i], y[i]
		if f == g {
			continue
		}
		if f.fi != g.fi || f.block != g.block || f.pc != g.pc || len(f.defers) != len(g.defers) || f.unwind || g.unwind || f.retMode != g.retMode || f.dst != g.dst {
			return false
		}
	}
	return true
}

// merge returns the union of two states, or nil when they differ structurally.
func (e *Engine) merge(a, b *State) *State {
	if !sameLoc(a, b) {
		return nil
	}
	if len(a.labels) != len(b.labels) || len(a.reach) != len(b.reach) {
		return nil
	}
	for k, v := range a.labels {
		if b.labels[k] != v {
			return nil
		}
	}
	for k := range a.reach {
		if !b.reach[k] {
			return nil
		}
	}
	// split path conditions
	n := 0
	for n < len(a.pc.cons) && n < len(b.pc.cons) && a.pc.cons[n] == b.pc.cons[n] {
		n++
	}
	ca, cb := e.ctx.True, e.ctx.True
	for _, t := range a.pc.cons[n:] {
		ca = e.ctx.And(ca, t)
	}
	for _, t := range b.pc.cons[n:] {
		cb = e.ctx.And(cb, t)
	}
	if len(a.pc.cons)-n > 24 || len(b.pc.cons)-n > 24 {
		return nil
	}
	m := &merger{e: e, a: a, b: b, cond: ca, ok: true}
	if ca == e.ctx.True {
		// b's condition must be the discriminating one (cannot normally happen: the sides are disjoint)
		m.cond = e.ctx.Not(cb)
	}
	res := *a
	e.nextState++
	res.id = e.nextState
	ta, tb := a.threads[0], b.threads[0]
	nt := *ta
	nt.frames = make([]*Frame, len(ta.frames))
	for i := range ta.frames {
		f, g := ta.frames[i], tb.frames[i]
		if f == g {
			nt.frames[i] = f
			continue
		}
		nf := *f
		nf.owner = res.id
		nf.regs = make([]Value, len(f.regs))
		for k := range f.regs {
			nf.regs[k] = m.val(f.regs[k], g.regs[k])
			if !m.ok {
				return nil
			}
		}
		nf.defers = make([]deferRec, len(f.defers))
		for k := range f.defers {
			x, y := f.defers[k], g.defers[k]
			if x.inv != y.inv || len(x.args) != len(y.args) {
				return nil
			}
			d := deferRec{inv: x.inv, fn: m.val(x.fn, y.fn), args: make([]Value, len(x.args))}
			for q := range x.args {
				d.args[q] = m.val(x.args[q], y.args[q])
			}
			nf.defers[k] = d
		}
		nf.aux = m.val(f.aux, g.aux)
		nt.frames[i] = &nf
		if !m.ok {
			return nil
		}
	}
	// observations
	oa, ob := a.obs, b.obs
	if oa != ob {
		var la, lb []*obs
		for o := oa; o != nil; o = o.prev {
			la = append(la, o)
		}
		for o := ob; o != nil; o = o.prev {
			lb = append(lb, o)
		}
		if len(la) != len(lb) {
			return nil
		}
		var head *obs
		for i := len(la) - 1; i >= 0; i-- {
			if la[i] == lb[i] {
				head = la[i]
				continue
			}
			if la[i].label != lb[i].label {
				return nil
			}
			head = &obs{prev: head, label: la[i].label, val: m.val(la[i].val, lb[i].val), n: la[i].n}
		}
		if !m.ok {
			return nil
		}
		res.obs = head
	}
	// heap: only objects reachable matter, but ids must agree
	nh := len(a.heap)
	if len(b.heap) != nh {
		// tolerate extra garbage when it is unreachable
		ra, rb := e.reachable(a), e.reachable(b)
		lo := min(nh, len(b.heap))
		for i := lo; i < nh; i++ {
			if ra[i] {
				return nil
			}
		}
		for i := lo; i < len(b.heap); i++ {
			if rb[i] {
				return nil
			}
		}
		h, ok := m.heap(a.heap[:lo], b.heap[:lo], ra, rb)
		if !ok {
			return nil
		}
		res.heap = h
	} else {
		diff := false
		for i := range a.heap {
			if a.heap[i] != b.heap[i] {
				diff = true
				break
			}
		}
		if diff {
			ra, rb := e.reachable(a), e.reachable(b)
			h, ok := m.heap(a.heap, b.heap, ra, rb)
			if !ok {
				return nil
			}
			res.heap = h
		} else {
			res.heap = append([]*Obj(nil), a.heap...)
		}
	}
	res.over = map[int]*Obj{}
	for k, x := range a.over {
		y, ok := b.over[k]
		if !ok {
			y = e.base[-k-1]
		}
		res.over[k] = m.obj(x, y)
		if !m.ok {
			return nil
		}
	}
	for k, y := range b.over {
		if _, ok := a.over[k]; !ok {
			res.over[k] = m.obj(e.base[-k-1], y)
			if !m.ok {
				return nil
			}
		}
	}
	if !m.ok {
		return nil
	}
	res.threads = []*Thread{&nt}
	// path condition
	pc := PC{multi: e.ctx.empty}
	for _, t := range a.pc.cons[:n] {
		pc.add(e.ctx, t)
	}
	or := e.orConds(ca, cb)
	pc.add(e.ctx, or)
	res.pc = pc
	res.model = a.model
	res.labels = make(map[string]int, len(a.labels))
	for k, v := range a.labels {
		res.labels[k] = v
	}
	res.reach = make(map[string]bool, len(a.reach))
	for k, v := range a.reach {
		res.reach[k] = v
	}
	res.steps = max(a.steps, b.steps)
	res.off = true
	return &res
}

// orConds simplifies (A ∨ B) for conjunctions sharing structure: (p∧c) ∨ (p∧¬c) = p.
func (e *Engine) orConds(a, b *Term) *Term {
	la, lb := conj(a, nil), conj(b, nil)
	inB := map[*Term]bool{}
	for _, t := range lb {
		inB[t] = true
	}
	common := e.ctx.True
	var ra, rb []*Term
	inC := map[*Term]bool{}
	for _, t := range la {
		if inB[t] {
			common = e.ctx.And(common, t)
			inC[t] = true
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range lb {
		if !inC[t] {
			rb = append(rb, t)
		}
	}
	x, y := e.ctx.True, e.ctx.True
	for _, t := range ra {
		x = e.ctx.And(x, t)
	}
	for _, t := range rb {
		y = e.ctx.And(y, t)
	}
	// (¬c) ∨ (c ∧ r) = ¬c ∨ r
	if len(ra) == 1 {
		y2 := e.ctx.True
		for _, t := range rb {
			if t == e.ctx.Not(ra[0]) {
				continue
			}
			y2 = e.ctx.And(y2, t)
		}
		y = y2
	} else if len(rb) == 1 {
		x2 := e.ctx.True
		for _, t := range ra {
			if t == e.ctx.Not(rb[0]) {
				continue
			}
			x2 = e.ctx.And(x2, t)
		}
		x = x2
	}
	return e.ctx.And(common, e.ctx.Or(x, y))
}

func conj(t *Term, out []*Term) []*Term {
	if t.op == OBAnd {
		return conj(t.b, conj(t.a, out))
	}
	if t.op == OConst && t.k != 0 {
		return out
	}
	return append(out, t)
}

func (m *merger) heap(a, b []*Obj, ra, rb []bool) ([]*Obj, bool) {
	out := make([]*Obj, len(a))
	for i := range a {
		if a[i] == b[i] {
			out[i] = a[i]
			continue
		}
		if !ra[i] && !rb[i] {
			out[i] = a[i]
			continue
		}
		if !ra[i] || !rb[i] {
			return nil, false
		}
		out[i] = m.obj(a[i], b[i])
		if !m.ok {
			return nil, false
		}
	}
	return out, true
}

// reachable marks heap objects reachable from registers, globals overlays and observations.
func (e *Engine) reachable(s *State) []bool {
	seen := make([]bool, len(s.heap))
	var stack []int
	var visit func(v Value)
	visitObj := func(id int) {
		if id > 0 && id <= len(seen) && !seen[id-1] {
			seen[id-1] = true
			stack = append(stack, id-1)
		}
	}
	visit = func(v Value) {
		switch x := v.(type) {
		case StrV:
			visitObj(x.obj)
		case SliceV:
			visitObj(x.obj)
		case PtrV:
			visitObj(x.obj)
		case SymPtrV:
			visitObj(x.obj)
		case MapV:
			visitObj(x.obj)
		case ChanV:
			visitObj(x.obj)
		case IterV:
			visitObj(x.obj)
		case UnsafeV:
			visit(x.v)
		case IfaceV:
			if x.t != nil {
				visit(x.v)
			}
		case *FuncV:
			if x != nil {
				for _, b := range x.bind {
					visit(b)
				}
			}
		case TupleV:
			for _, b := range x {
				visit(b)
			}
		case AggV:
			for _, b := range x {
				visit(b)
			}
		}
	}
	visitO := func(o *Obj) {
		for _, c := range o.cells {
			visit(c)
		}
		for _, en := range o.ent {
			visit(en.k)
			visit(en.v)
		}
		if o.ch != nil {
			for _, c := range o.ch.buf {
				visit(c)
			}
		}
		if o.it != nil {
			for _, c := range o.it.keys {
				visit(c)
			}
			if o.it.str != nil {
				visit(*o.it.str)
			}
			visitObj(o.it.m)
		}
	}
	for _, t := range s.threads {
		for _, f := range t.frames {
			for _, r := range f.regs {
				visit(r)
			}
			for _, d := range f.defers {
				visit(d.fn)
				for _, a := range d.args {
					visit(a)
				}
			}
			visit(f.aux)
			if f.panicV != nil {
				visit(*f.panicV)
			}
		}
	}
	for _, o := range s.over {
		visitO(o)
	}
	for o := s.obs; o != nil; o = o.prev {
		visit(o.val)
	}
	for len(stack) > 0 {
		i := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		visitO(s.heap[i])
	}
	return seen
}
