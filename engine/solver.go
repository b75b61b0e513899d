package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int64
	CacheHits, ByteSets, Second  int64
	Time                         time.Duration
	Restarts                     int64
	Errors                       int64
}

func (s *SolverStats) add(o SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.CacheHits += o.CacheHits
	s.ByteSets += o.ByteSets
	s.Time += o.Time
	s.Restarts += o.Restarts
	s.Errors += o.Errors
	s.Second += o.Second
}

// Solver talks to one SMT solver process.
type Solver struct {
	ctx     *Ctx
	cmdline []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	ufs     map[string]bool
	stats   SolverStats
	timeout int // ms
	ms      int // the timeout in force
	cache   map[string]cacheEnt
	ndefs   int
}

type cacheEnt struct {
	res   Result
	model *Model
}

func NewSolver(ctx *Ctx, cmdline []string, timeoutMS int) *Solver {
	return &Solver{ctx: ctx, cmdline: cmdline, timeout: timeoutMS, cache: map[string]cacheEnt{}}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.ufs = map[string]bool{}
	s.ndefs = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n")
	s.ms = 0
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(t *Term) string {
	if l, ok := t.leaf(); ok {
		if t.op == OVar && !s.defined[t.id] {
			s.defined[t.id] = true
			fmt.Fprintf(s.in, "(declare-const v%d %s)\n", t.id, sortName(t))
		}
		return l
	}
	n := fmt.Sprintf("t%d", t.id)
	if s.defined[t.id] {
		return n
	}
	s.defined[t.id] = true
	s.ndefs++
	if t.op == OUF && !s.ufs[t.name] {
		s.ufs[t.name] = true
		fmt.Fprintf(s.in, "(declare-fun uf_%s %s)\n", t.name, s.ctx.ufs[t.name])
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(define-fun %s () %s (%s", n, sortName(t), t.head())
	for _, k := range t.kids() {
		sb.WriteByte(' ')
		sb.WriteString(s.define(k))
	}
	sb.WriteString("))\n")
	s.in.WriteString(sb.String())
	return n
}

func intersects(a, b []uint64) bool {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

// slice returns the conjuncts of pc transitively sharing variables with cond.
func slicePC(pc []*Term, cond *Term) []*Term {
	vars := cond.vars
	used := make([]bool, len(pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if used[i] || !intersects(p.vars, vars) {
				continue
			}
			used[i] = true
			out = append(out, p)
			nv := orset(vars, p.vars)
			if len(nv) != len(vars) || &nv[0] != &vars[0] {
				vars = nv
				changed = true
			}
		}
	}
	return out
}

// Check decides whether the conjunction of conds is satisfiable. The model
// covers the variables that occur in conds.
func (s *Solver) Check(conds []*Term) (Result, *Model) {
	ids := make([]int, 0, len(conds))
	for _, c := range conds {
		if c == s.ctx.False {
			return Unsat, nil
		}
		if c == s.ctx.True {
			continue
		}
		ids = append(ids, int(c.id))
	}
	sort.Ints(ids)
	var sb strings.Builder
	last := -1
	for _, i := range ids {
		if i != last {
			sb.WriteByte(byte(i))
			sb.WriteByte(byte(i >> 8))
			sb.WriteByte(byte(i >> 16))
			sb.WriteByte(byte(i >> 24))
		}
		last = i
	}
	key := sb.String()
	if key == "" {
		return Sat, NewModel()
	}
	if e, ok := s.cache[key]; ok {
		s.stats.CacheHits++
		return e.res, e.model
	}
	res, m := s.query(conds)
	if len(s.cache) > 400000 {
		s.cache = map[string]cacheEnt{}
	}
	s.cache[key] = cacheEnt{res, m}
	return res, m
}

func (s *Solver) query(conds []*Term) (Result, *Model) {
	t0 := time.Now()
	defer func() { s.stats.Time += time.Since(t0) }()
	s.stats.Queries++
	for try := 0; ; try++ {
		res, m, err := s.query1(conds, min(firstMS, s.timeout))
		if err == nil {
			switch res {
			case Sat:
				s.stats.Sat++
			case Unsat:
				s.stats.Unsat++
			default:
				s.stats.Unknown++
			}
			return res, m
		}
		s.stats.Errors++
		s.Close()
		if try >= 1 {
			s.stats.Unknown++
			return Unknown, nil
		}
	}
}

// query1 asks the solver, another one if it does not answer soon, and it
// again with more time.
func (s *Solver) query1(conds []*Term, ms int) (Result, *Model, error) {
	if s.cmd != nil && s.ndefs > 150000 {
		s.Close()
		s.stats.Restarts++
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil, err
		}
	}
	var vars []uint64
	names := make([]string, len(conds))
	for i, c := range conds {
		names[i] = s.define(c)
		vars = orset(vars, c.vars)
	}
	var vs []*Term
	for i, w := range vars {
		for b := 0; w != 0; b++ {
			if w&1 != 0 {
				vs = append(vs, s.ctx.vlist[i*64+b])
			}
			w >>= 1
		}
	}
	vn := make([]string, len(vs))
	for i, v := range vs {
		vn[i] = s.define(v)
	}
	s.in.WriteString("(push)\n")
	for i, v := range vs {
		s.bounds(v, vn[i])
	}
	for _, n := range names {
		fmt.Fprintf(s.in, "(assert %s)\n", n)
	}
	if ms != s.ms {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", ms)
		s.ms = ms
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return Unknown, nil, err
	}
	line, err := s.readLine()
	if err != nil {
		return Unknown, nil, err
	}
	var m *Model
	res := Unknown
	switch line {
	case "sat":
		res = Sat
		m = NewModel()
		if len(vs) > 0 {
			fmt.Fprintf(s.in, "(get-value (%s))\n", strings.Join(vn, " "))
			if err := s.in.Flush(); err != nil {
				return Unknown, nil, err
			}
			sx, err := s.readSexp()
			if err != nil {
				return Unknown, nil, err
			}
			if len(sx.list) != len(vs) {
				return Unknown, nil, fmt.Errorf("get-value: %v", sx)
			}
			for i, p := range sx.list {
				if len(p.list) != 2 {
					return Unknown, nil, fmt.Errorf("get-value: %v", sx)
				}
				if err := setModel(m, vs[i], p.list[1]); err != nil {
					// e.g. an algebraic number: no usable model
					res = Sat
					m = nil
					break
				}
			}
		}
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		s.in.WriteString("(pop)\n")
		if ms == s.timeout {
			if d := os.Getenv("VERIF_UNKNOWN"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", d, os.Getpid(), s.stats.Queries), []byte(s.script(conds, vs)), 0o644)
			}
			return Unknown, nil, nil
		}
		if res, m := s.second(conds, vs); res != Unknown {
			s.stats.Second++
			return res, m, nil
		}
		return s.query1(conds, s.timeout)
	default:
		return Unknown, nil, fmt.Errorf("solver: %q", line)
	}
	s.in.WriteString("(pop)\n")
	return res, m, nil
}

const (
	firstMS  = 800
	secondMS = 2000
)

// second asks cvc5.
func (s *Solver) second(conds, vs []*Term) (Result, *Model) {
	cmd := exec.Command("cvc5", "--lang=smt2", "--produce-models", "--incremental", fmt.Sprintf("--tlimit=%d", secondMS))
	q := "(set-logic ALL)\n" + s.script(conds, vs)
	if len(vs) > 0 {
		var vn []string
		for _, v := range vs {
			vn = append(vn, fmt.Sprintf("v%d", v.id))
		}
		q += "(get-value (" + strings.Join(vn, " ") + "))\n"
	}
	cmd.Stdin = strings.NewReader(q)
	out, _ := cmd.Output()
	t := &Solver{ctx: s.ctx, out: bufio.NewReader(strings.NewReader(string(out)))}
	line, err := t.readLine()
	if err != nil {
		return Unknown, nil
	}
	switch line {
	case "unsat":
		return Unsat, nil
	case "sat":
		m := NewModel()
		if len(vs) == 0 {
			return Sat, m
		}
		sx, err := t.readSexp()
		if err != nil || len(sx.list) != len(vs) {
			return Sat, nil
		}
		for i, p := range sx.list {
			if len(p.list) != 2 || setModel(m, vs[i], p.list[1]) != nil {
				return Sat, nil
			}
		}
		return Sat, m
	}
	return Unknown, nil
}

// script is a query on its own.
func (s *Solver) script(conds, vs []*Term) string {
	var b strings.Builder
	t := &Solver{ctx: s.ctx, in: bufio.NewWriter(&b), defined: map[int32]bool{}, ufs: map[string]bool{}}
	var names []string
	for _, c := range conds {
		names = append(names, t.define(c))
	}
	for _, v := range vs {
		t.bounds(v, t.define(v))
	}
	for _, n := range names {
		fmt.Fprintf(t.in, "(assert %s)\n", n)
	}
	t.in.WriteString("(check-sat)\n")
	t.in.Flush()
	return b.String()
}

// bounds asserts the bounds of a variable.
func (s *Solver) bounds(v *Term, n string) {
	if v.sk == SBV && v.op == OVar {
		if v.umin > 0 {
			fmt.Fprintf(s.in, "(assert (bvule (_ bv%d %d) %s))\n", v.umin, v.w, n)
		}
		if v.umax < wmask(v.w) {
			fmt.Fprintf(s.in, "(assert (bvule %s (_ bv%d %d)))\n", n, v.umax, v.w)
		}
	}
	if v.bnd && (v.sk == SReal || v.sk == SInt) {
		lo, hi := new(big.Rat), new(big.Rat)
		lo.SetFloat64(v.lo)
		hi.SetFloat64(v.hi)
		fmt.Fprintf(s.in, "(assert (<= %s %s %s))\n", ratSMT(lo, v.sk), n, ratSMT(hi, v.sk))
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

type sexp struct {
	atom string
	list []sexp
}

func (s *Solver) readSexp() (sexp, error) {
	skip := func() (byte, error) {
		for {
			c, err := s.out.ReadByte()
			if err != nil {
				return 0, err
			}
			if c != ' ' && c != '\n' && c != '\t' && c != '\r' {
				return c, nil
			}
		}
	}
	var rd func(c byte) (sexp, error)
	rd = func(c byte) (sexp, error) {
		if c == '(' {
			var x sexp
			x.list = []sexp{}
			for {
				c, err := skip()
				if err != nil {
					return x, err
				}
				if c == ')' {
					return x, nil
				}
				k, err := rd(c)
				if err != nil {
					return x, err
				}
				x.list = append(x.list, k)
			}
		}
		var sb strings.Builder
		sb.WriteByte(c)
		for {
			c, err := s.out.ReadByte()
			if err != nil {
				return sexp{}, err
			}
			if c == ' ' || c == '\n' || c == '\t' {
				break
			}
			if c == '(' || c == ')' {
				s.out.UnreadByte()
				break
			}
			sb.WriteByte(c)
		}
		return sexp{atom: sb.String()}, nil
	}
	c, err := skip()
	if err != nil {
		return sexp{}, err
	}
	return rd(c)
}

func setModel(m *Model, v *Term, x sexp) error {
	switch v.sk {
	case SBool:
		m.bv[v.id] = b2u(x.atom == "true")
	case SBV:
		var u uint64
		switch {
		case strings.HasPrefix(x.atom, "#x"):
			fmt.Sscanf(x.atom[2:], "%x", &u)
		case strings.HasPrefix(x.atom, "#b"):
			fmt.Sscanf(x.atom[2:], "%b", &u)
		case len(x.list) == 3 && strings.HasPrefix(x.list[1].atom, "bv"):
			fmt.Sscanf(x.list[1].atom[2:], "%d", &u)
		default:
			return fmt.Errorf("bad bv %v", x)
		}
		m.bv[v.id] = u
	default:
		r, err := sexpRat(x)
		if err != nil {
			return err
		}
		m.num[v.id] = r
	}
	return nil
}

func sexpRat(x sexp) (*big.Rat, error) {
	if x.list == nil {
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(x.atom, "?"))
		if !ok || strings.HasSuffix(x.atom, "?") {
			return nil, fmt.Errorf("bad number %q", x.atom)
		}
		return r, nil
	}
	if len(x.list) == 2 && x.list[0].atom == "-" {
		r, err := sexpRat(x.list[1])
		if err != nil {
			return nil, err
		}
		return r.Neg(r), nil
	}
	if len(x.list) == 3 && x.list[0].atom == "/" {
		a, err := sexpRat(x.list[1])
		if err != nil {
			return nil, err
		}
		b, err := sexpRat(x.list[2])
		if err != nil {
			return nil, err
		}
		if b.Sign() == 0 {
			return nil, fmt.Errorf("div by zero")
		}
		return new(big.Rat).Quo(a, b), nil
	}
	return nil, fmt.Errorf("bad number %v", x)
}
