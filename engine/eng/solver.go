package eng

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Sat int

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

// Solver drives one z3 process over SMT-LIB2.
type Solver struct {
	ctx      *Ctx
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	defined  map[uint32]bool
	declared int
	cache    map[string]cacheEnt
	Timeout  int // ms
	// statistics
	Queries  int
	Hits     int
	NUnsat   int
	NSat     int
	NUnknown int
	Time     time.Duration
	broken   error
	log      *strings.Builder
}

type cacheEnt struct {
	r Sat
	m map[int32]uint64
}

func NewSolver(ctx *Ctx, timeoutMS int) *Solver {
	return &Solver{ctx: ctx, defined: map[uint32]bool{}, cache: map[string]cacheEnt{}, Timeout: timeoutMS}
}

var SolverBin = "z3-new"

func (s *Solver) start() error {
	s.cmd = exec.Command(SolverBin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :model.completion true)\n", s.Timeout)
	s.defined = map[uint32]bool{}
	s.declared = 0
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t.w, t.k)
	case OVar:
		return "v" + strconv.FormatUint(t.k, 10)
	}
	return "t" + strconv.FormatUint(uint64(t.id), 10)
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || t.op == OVar || s.defined[t.id] {
		return
	}
	// iterative post-order
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.op == OConst || x.op == OVar || s.defined[x.id] {
			stack = stack[:len(stack)-1]
			continue
		}
		pushed := false
		for _, y := range [3]*Term{x.a, x.b, x.c} {
			if y != nil && y.op != OConst && y.op != OVar && !s.defined[y.id] {
				stack = append(stack, y)
				pushed = true
			}
		}
		if pushed {
			continue
		}
		stack = stack[:len(stack)-1]
		s.in.WriteString("(define-fun t")
		s.in.WriteString(strconv.FormatUint(uint64(x.id), 10))
		s.in.WriteString(" () ")
		s.in.WriteString(sortName(x.w))
		s.in.WriteString(" (")
		s.in.WriteString(x.opString())
		for _, y := range [3]*Term{x.a, x.b, x.c} {
			if y != nil {
				s.in.WriteByte(' ')
				s.in.WriteString(s.ref(y))
			}
		}
		s.in.WriteString("))\n")
		s.defined[x.id] = true
	}
}

// Check decides the conjunction of the given terms. On SAT it returns values for all variables occurring in them.
func (s *Solver) Check(cons []*Term) (Sat, map[int32]uint64) {
	if s.broken != nil {
		return Unknown, nil
	}
	ids := make([]uint32, 0, len(cons))
	seen := map[uint32]bool{}
	uniq := cons[:0:0]
	for _, t := range cons {
		if t.op == OConst {
			if t.k == 0 {
				return Unsat, nil
			}
			continue
		}
		if !seen[t.id] {
			seen[t.id] = true
			ids = append(ids, t.id)
			uniq = append(uniq, t)
		}
	}
	if len(uniq) == 0 {
		return SatYes, nil
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var kb strings.Builder
	for _, id := range ids {
		kb.WriteByte(byte(id))
		kb.WriteByte(byte(id >> 8))
		kb.WriteByte(byte(id >> 16))
		kb.WriteByte(byte(id >> 24))
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.Hits++
		return e.r, e.m
	}
	r, m := s.query(uniq)
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

func (s *Solver) query(cons []*Term) (Sat, map[int32]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.broken = err
			return Unknown, nil
		}
	}
	s.Queries++
	for ; s.declared < len(s.ctx.vars); s.declared++ {
		fmt.Fprintf(s.in, "(declare-const v%d %s)\n", s.declared, sortName(s.ctx.vars[s.declared].W))
	}
	vs := s.ctx.empty
	for _, t := range cons {
		s.define(t)
		vs = s.ctx.union(vs, t.vars)
	}
	s.in.WriteString("(push)\n")
	for _, t := range cons {
		s.in.WriteString("(assert ")
		s.in.WriteString(s.ref(t))
		s.in.WriteString(")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return s.fail(err)
	}
	line, err := s.readLine()
	if err != nil {
		return s.fail(err)
	}
	res := Unknown
	var m map[int32]uint64
	switch line {
	case "sat":
		res = SatYes
		s.NSat++
		if len(vs.v) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vs.v {
				fmt.Fprintf(s.in, "v%d ", v)
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil {
				return s.fail(err)
			}
			m, err = parseValues(txt)
			if err != nil {
				return s.fail(err)
			}
		}
	case "unsat":
		res = Unsat
		s.NUnsat++
	default:
		s.NUnknown++
		if strings.HasPrefix(line, "(error") {
			return s.fail(fmt.Errorf("solver: %s", line))
		}
	}
	s.in.WriteString("(pop)\n")
	return res, m
}

func (s *Solver) fail(err error) (Sat, map[int32]uint64) {
	s.NUnknown++
	s.Close()
	// one dead process does not poison the run; restart lazily, but give up after repeated failures
	if s.NUnknown > 20 {
		s.broken = err
	}
	return Unknown, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string) (map[int32]uint64, error) {
	m := map[int32]uint64{}
	txt = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt)
	f := strings.Fields(txt)
	for i := 0; i < len(f); i++ {
		if len(f[i]) > 1 && f[i][0] == 'v' {
			id, err := strconv.Atoi(f[i][1:])
			if err != nil {
				return nil, fmt.Errorf("bad value %q", f[i])
			}
			v := f[i+1]
			switch {
			case v == "true":
				m[int32(id)] = 1
			case v == "false":
				m[int32(id)] = 0
			case strings.HasPrefix(v, "#x"):
				x, err := strconv.ParseUint(v[2:], 16, 64)
				if err != nil {
					return nil, err
				}
				m[int32(id)] = x
			case strings.HasPrefix(v, "#b"):
				x, err := strconv.ParseUint(v[2:], 2, 64)
				if err != nil {
					return nil, err
				}
				m[int32(id)] = x
			default:
				return nil, fmt.Errorf("bad value %q for %s", v, f[i])
			}
			i++
		} else if f[i] == "error" {
			return nil, fmt.Errorf("solver error: %s", txt)
		}
	}
	return m, nil
}

// ---------- path conditions ----------

type PC struct {
	cons  []*Term // all constraints in order
	dom   []*Bset // per var id, for byte variables; nil = unconstrained by single-variable constraints
	multi *VarSet // variables that occur in constraints over several variables (or wide ones)
}

func (p *PC) clone() PC {
	return PC{cons: p.cons[:len(p.cons):len(p.cons)], dom: append([]*Bset(nil), p.dom...), multi: p.multi}
}

func (p *PC) domOf(c *Ctx, v int32) Bset {
	if int(v) < len(p.dom) && p.dom[v] != nil {
		return *p.dom[v]
	}
	return fullBset(c.vars[v].W)
}

// add records a constraint (assumed feasible).
func (p *PC) add(c *Ctx, t *Term) {
	if t.op == OConst {
		return
	}
	if t.op == OBAnd {
		p.add(c, t.a)
		p.add(c, t.b)
		return
	}
	if v, ok := c.singleByte(t); ok {
		d := p.domOf(c, v)
		n := d.and(c.BsetOf(t))
		if n == d {
			return // implied
		}
		for int(v) >= len(p.dom) {
			p.dom = append(p.dom, nil)
		}
		p.dom[v] = &n
	} else {
		for _, x := range p.cons {
			if x == t {
				return
			}
		}
		p.multi = c.union(p.multi, t.vars)
	}
	p.cons = append(p.cons, t)
}

func (vs *VarSet) has(v int32) bool {
	i := sort.Search(len(vs.v), func(i int) bool { return vs.v[i] >= v })
	return i < len(vs.v) && vs.v[i] == v
}

func (vs *VarSet) intersects(o *VarSet) bool {
	i, j := 0, 0
	for i < len(vs.v) && j < len(o.v) {
		if vs.v[i] == o.v[j] {
			return true
		}
		if vs.v[i] < o.v[j] {
			i++
		} else {
			j++
		}
	}
	return false
}

// relevant returns the constraints connected with the variables of t.
func (p *PC) relevant(c *Ctx, t *Term) []*Term {
	vs := t.vars
	used := make([]bool, len(p.cons))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, k := range p.cons {
			if used[i] || !k.vars.intersects(vs) {
				continue
			}
			used[i] = true
			out = append(out, k)
			n := c.union(vs, k.vars)
			if n != vs {
				vs = n
				changed = true
			}
		}
	}
	return out
}
