package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Machine executes SSA functions over symbolic values. One machine belongs to
// one worker; every path re-executes the harness from the state reached after
// package initialisation, following the recorded decisions.
type Machine struct {
	p         *Program
	ctx       *Ctx
	sol       *Solver
	fns       map[*ssa.Function]*Fn
	globals   map[*ssa.Global]*Value
	locked    int             // locks held
	rlocked   int             // locks held for reading
	racing    bool            // what calls share is noted
	dyn       map[*Value]bool // slots that came to be reachable from globals
	dynM      map[*MapV]bool
	openR     map[*Value]bool // shared slots read without a lock
	openRM    map[*MapV]bool
	lockW     map[*Value]string // shared slots written in a lock, and where
	lockWM    map[*MapV]string
	pools     map[*Value][]Value // contents of the sync.Pools
	syncMaps  map[*Value]*MapV   // contents of the sync.Maps
	backwards bool               // maps are iterated backwards
	undecided map[string]int64   // assertions the solver gave no answer for
	inited    bool

	trail   []undo
	logging bool

	// path state
	pc        []*Term
	model     *Model // satisfies pc; nil: unknown
	dec       []Dec
	prefix    []Dec
	steps     int64
	limit     int64
	depth     int
	nds       []NDVal
	ndMark    int
	obs       []Obs
	reach     map[string]bool
	lossy     int // inside the text of an error
	fork      func(prefix []Dec, model *Model)
	report    func(v *Violation)
	shared    map[*Value]bool // slots reachable from globals (C22)
	sharedM   map[*MapV]bool
	knownDone func(key string) bool
	watch     bool
	writes    map[string]bool
	params    map[string]int
	panics    []string // stack of the last panic
	cur       []*frame
	unknown   int
	spec      int
	pending   *NamedModel

	stats PathStats
	encFn map[string]bool

	methods  map[methodKey]*Fn
	assignOK map[[2]types.Type]bool
	strT     types.Type
	rtErrT   types.Type
	seq      int
}

type PathStats struct {
	Branches, Forced, Merged, Steps int64
	Asserts, AssertQ                int64
	Unknown                         int64
}

type methodKey struct {
	t    types.Type
	name string
}

type undo struct {
	p   *Value
	old Value
	f   func()
}

// Dec is one recorded decision: the alternative taken, and whether its
// condition was implied by the path condition (then it is not added to it).
type Dec struct {
	Alt    int16
	Forced bool
}

type NDVal struct {
	Name string
	V    Value
	T    string
}

type Obs struct {
	Vals []Value
}

type Violation struct {
	Msg   string
	Known string
	Vals  []NDJSON
	Kind  string // assert, panic, hang, known
}

type pathEnd struct {
	kind string // "ok", "assume", "unsupported", "unknown", "limit", "infeasible", "stop"
	msg  string
}

type targetPanic struct{ v Value }

type goExit struct{}

type deferred struct {
	fn   Value
	args []Value
	in   *Ins
}

type frame struct {
	m         *Machine
	fn        *Fn
	env       []Value
	defers    []deferred
	panicking bool
	panicV    Value
	caller    *frame
	result    Value
	blk       *Blk
	prev      *Blk
}

func NewMachine(p *Program) *Machine {
	ctx := NewCtx()
	m := &Machine{
		p: p, ctx: ctx,
		sol:      NewSolver(ctx, []string{"z3", "-in"}, 4000),
		fns:      map[*ssa.Function]*Fn{},
		globals:  map[*ssa.Global]*Value{},
		methods:  map[methodKey]*Fn{},
		assignOK: map[[2]types.Type]bool{},
		encFn:    map[string]bool{},
		strT:     types.Typ[types.String],
	}
	if rp := p.pkgs["runtime"]; rp != nil {
		if o := rp.Pkg.Scope().Lookup("errorString"); o != nil {
			m.rtErrT = o.Type()
		}
	}
	return m
}

func (m *Machine) rtPanic(f string, a ...any) {
	panic(targetPanic{Iface{m.rtErrT, fmt.Sprintf(f, a...)}})
}

// ---- memory

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	if m.p.needsInit(g) {
		unsup("variable %s of a package that is not initialised", g)
	}
	p := new(Value)
	*p = zeroOf(g.Type().(*types.Pointer).Elem())
	m.globals[g] = p
	if m.shared != nil && inModule(g) {
		m.markSlot(p, m.shared, m.sharedM)
	}
	return p
}

func (m *Machine) set(p *Value, v Value) {
	if m.logging {
		m.trail = append(m.trail, undo{p: p, old: *p})
		if m.racing && m.isShared(p) {
			if m.watch {
				m.sharedWrite("", p, nil)
			}
			m.mark(v, m.dyn, m.dynM)
		}
	}
	*p = v
}

func (m *Machine) isShared(p *Value) bool    { return m.shared[p] || m.dyn[p] }
func (m *Machine) isSharedMap(mv *MapV) bool { return m.sharedM[mv] || m.dynM[mv] }

// sharedRead notes a read of memory that others reach, outside of any lock.
func (m *Machine) sharedRead(p *Value) {
	if m.locked > 0 || m.rlocked > 0 {
		return
	}
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			m.sharedRead(&v[i])
		}
	case Array:
		for i := range v {
			m.sharedRead(&v[i])
		}
	default:
		if m.isShared(p) {
			m.openR[p] = true
		}
	}
}

func (m *Machine) sharedReadMap(mv *MapV) {
	if m.locked == 0 && m.rlocked == 0 && m.isSharedMap(mv) {
		m.openRM[mv] = true
	}
}

// sharedWrite notes a write to memory that others reach: outside of any lock,
// or in one (but not in a Once), which reads outside of it must not see.
func (m *Machine) sharedWrite(what string, p *Value, mv *MapV) {
	where := "?"
	for i := len(m.cur) - 1; i >= 0; i-- {
		if m.cur[i].fn.repo {
			where = m.cur[i].fn.name
			break
		}
	}
	if m.locked == 0 {
		m.writes[where+what] = true
		return
	}
	for _, f := range m.cur {
		if f.fn.name == "(*sync.Once).doSlow" {
			return
		}
	}
	if p != nil {
		m.lockW[p] = where
	} else {
		m.lockWM[mv] = where
	}
}

func (m *Machine) store(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			for i := range d {
				m.store(&d[i], v[i])
			}
			return
		}
		m.set(p, copyVal(v))
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			for i := range d {
				m.store(&d[i], v[i])
			}
			return
		}
		m.set(p, copyVal(v))
	default:
		m.set(p, v)
	}
}

func (m *Machine) undoTo(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		u := &m.trail[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		*u = undo{}
	}
	m.trail = m.trail[:n]
}

func (m *Machine) load(pv Value) Value {
	switch p := pv.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if m.watch {
			m.sharedRead(p)
		}
		switch v := (*p).(type) {
		case Struct, Array:
			return copyVal(v)
		default:
			return v
		}
	case *SymPtr:
		return m.symLoad(p)
	}
	panic(fmt.Sprintf("load: %T", pv))
}

func (m *Machine) storeTo(pv, v Value) {
	switch p := pv.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		m.store(p, v)
		return
	case *SymPtr:
		i := m.concretize(p.idx, len(p.slots))
		m.store(&p.slots[i], v)
		return
	}
	panic(fmt.Sprintf("store: %T", pv))
}

// symLoad reads an element selected by a symbolic index.
func (m *Machine) symLoad(p *SymPtr) Value {
	// group the candidates by value
	groups := map[Value][]int{}
	var order []Value
	mergeable := true
	for i := range p.slots {
		if uint64(i) < p.idx.umin || uint64(i) > p.idx.umax {
			continue
		}
		v := p.slots[i]
		switch v.(type) {
		case int64, bool, *Term, string, float64:
		default:
			mergeable = false
		}
		if !mergeable {
			break
		}
		if _, ok := groups[v]; !ok {
			order = append(order, v)
		}
		groups[v] = append(groups[v], i)
	}
	if mergeable && len(order) > 0 {
		switch order[0].(type) {
		case string:
			mergeable = len(order) == 1
		}
	}
	if !mergeable || len(order) == 0 {
		i := m.concretize(p.idx, len(p.slots))
		v := p.slots[i]
		return copyVal(v)
	}
	// the largest group is the default
	def := order[0]
	for _, v := range order {
		if len(groups[v]) > len(groups[def]) {
			def = v
		}
	}
	res := def
	for _, v := range order {
		if v == def {
			continue
		}
		var cs []*Term
		g := groups[v]
		for a := 0; a < len(g); {
			b := a
			for b+1 < len(g) && g[b+1] == g[b]+1 {
				b++
			}
			cs = append(cs, m.inRange(p.idx, uint64(g[a]), uint64(g[b])))
			a = b + 1
		}
		r, ok := m.iteN(m.ctx.OrN(cs), v, res, p.n)
		if !ok {
			unsup("symbolic load of %T/%T", v, res)
		}
		res = r
	}
	return res
}

func (m *Machine) inRange(x *Term, lo, hi uint64) *Term {
	c := m.ctx
	if lo == hi {
		return c.Eq(x, c.BV(lo, x.w))
	}
	return c.And(c.Ule(c.BV(lo, x.w), x), c.Ule(x, c.BV(hi, x.w)))
}

// concretize forks on the value of an index term within [0, n).
func (m *Machine) concretize(idx *Term, n int) int {
	if idx.sk == SInt {
		var alts []*Term
		lo, hi := 0, n-1
		if idx.bnd {
			lo, hi = max(lo, int(idx.lo)), min(hi, int(idx.hi))
		}
		for i := lo; i <= hi; i++ {
			alts = append(alts, m.ctx.Eq(idx, m.ctx.IntC(int64(i))))
		}
		return lo + m.decideN(alts)
	}
	lo := int(idx.umin)
	hi := n - 1
	if idx.umax < uint64(hi) {
		hi = int(idx.umax)
	}
	var alts []*Term
	for i := lo; i <= hi; i++ {
		alts = append(alts, m.ctx.Eq(idx, m.ctx.BV(uint64(i), idx.w)))
	}
	return lo + m.decideN(alts)
}

// concInt turns an integer value into a concrete one, forking if needed.
func (m *Machine) concInt(v Value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		if v.sk == SInt {
			if v.bnd && v.hi-v.lo <= 512 {
				var alts []*Term
				for i := int64(v.lo); i <= int64(v.hi); i++ {
					alts = append(alts, m.ctx.Eq(v, m.ctx.IntC(i)))
				}
				return int64(v.lo) + int64(m.decideN(alts))
			}
			unsup("concretize unbounded integer")
		}
		if v.umax-v.umin <= 512 {
			var alts []*Term
			for i := v.umin; i <= v.umax; i++ {
				alts = append(alts, m.ctx.Eq(v, m.ctx.BV(i, v.w)))
			}
			return int64(v.umin) + int64(m.decideN(alts))
		}
		// an ITE of constants?
		set := map[uint64]bool{}
		if collectConsts(v, set, 64) {
			var alts []*Term
			var vals []uint64
			for u := range set {
				vals = append(vals, u)
			}
			sortU64(vals)
			for _, u := range vals {
				alts = append(alts, m.ctx.Eq(v, m.ctx.BV(u, v.w)))
			}
			return sx(vals[m.decideN(alts)], v.w)
		}
		unsup("concretize wide term %v", v)
	}
	panic(fmt.Sprintf("concInt: %T", v))
}

func sortU64(v []uint64) {
	for i := 1; i < len(v); i++ {
		for j := i; j > 0 && v[j] < v[j-1]; j-- {
			v[j], v[j-1] = v[j-1], v[j]
		}
	}
}

func collectConsts(t *Term, set map[uint64]bool, budget int) bool {
	switch t.op {
	case OConst:
		set[t.u] = true
		return len(set) <= budget
	case OIte:
		return collectConsts(t.b, set, budget) && collectConsts(t.c, set, budget)
	}
	return false
}

// ---- decisions

func (m *Machine) addPC(t *Term) {
	if t != m.ctx.True {
		m.pc = append(m.pc, t)
	}
}

func (m *Machine) holds(t *Term) bool {
	if m.model == nil {
		return false
	}
	e := evaluator{m: m.model, memo: map[int32]ev{}}
	return e.eval(t).u == 1
}

// sat checks pc ∧ t; the model returned satisfies both.
func (m *Machine) sat(t *Term, proof bool) (Result, *Model) {
	if t == m.ctx.False {
		return Unsat, nil
	}
	sl := append(slicePC(m.pc, t), t)
	var res Result
	var mm *Model
	fast := false
	if !proof && m.model != nil {
		res, mm, fast = m.ctx.byteCheck(sl)
	}
	if fast {
		m.sol.stats.ByteSets++
	} else {
		res, mm = m.sol.Check(sl)
	}
	if res != Sat {
		return res, nil
	}
	if m.model == nil {
		// need a model of everything
		res, mm = m.sol.Check(append(append([]*Term{}, m.pc...), t))
		if res != Sat {
			return res, nil
		}
		return res, mm
	}
	if mm == nil {
		return Unknown, nil
	}
	n := m.model.clone()
	for k, v := range mm.bv {
		n.bv[k] = v
	}
	for k, v := range mm.num {
		n.num[k] = v
	}
	return Sat, n
}

func (m *Machine) needModel() {
	if m.model != nil {
		return
	}
	res, mm := m.sol.Check(m.pc)
	switch {
	case res == Unsat:
		panic(pathEnd{kind: "infeasible"})
	case res == Unknown || mm == nil:
		m.stats.Unknown++
		panic(pathEnd{kind: "unknown", msg: "no model for the path condition"})
	}
	m.model = mm
}

var debugReplay = os.Getenv("VERIF_DEBUG_REPLAY") != ""

// decideN picks one of several mutually exclusive, jointly exhaustive
// (given the path condition) alternatives and forks on the others.
func (m *Machine) decideN(alts []*Term) int {
	for i, a := range alts {
		if a == m.ctx.True {
			return i
		}
	}
	m.noSpec()
	pos := len(m.dec)
	if pos < len(m.prefix) {
		d := m.prefix[pos]
		m.dec = append(m.dec, d)
		if int(d.Alt) >= len(alts) {
			panic(fmt.Sprintf("replay diverged: alt %d of %d", d.Alt, len(alts)))
		}
		if debugReplay && m.pending == nil && m.model != nil && !m.holds(alts[d.Alt]) {
			fmt.Fprintf(os.Stderr, "replay: model contradicts decision %d/%d alt %d of %d forced %v%s\n", pos, len(m.prefix), d.Alt, len(alts), d.Forced, m.where())
			for i, a := range alts {
				fmt.Fprintf(os.Stderr, "    %d: %v %s\n", i, m.holds(a), a)
			}
		}
		if !d.Forced {
			m.addPC(alts[d.Alt])
		}
		return int(d.Alt)
	}
	m.noSpec()
	m.needModel()
	m.stats.Branches++
	e := evaluator{m: m.model, memo: map[int32]ev{}}
	pick := -1
	for i, a := range alts {
		if e.eval(a).u == 1 {
			pick = i
			break
		}
	}
	others := 0
	for i, a := range alts {
		if i == pick || a == m.ctx.False {
			continue
		}
		res, mm := m.sat(a, false)
		switch res {
		case Sat:
			if pick < 0 {
				// the model satisfies no alternative: not exhaustive under it
				pick = i
				m.model = mm
				continue
			}
			others++
			p := make([]Dec, pos+1)
			copy(p, m.dec)
			p[pos] = Dec{Alt: int16(i)}
			m.fork(p, mm)
		case Unknown:
			others++
			m.stats.Unknown++
			m.unknown++
		}
	}
	if pick < 0 {
		panic(pathEnd{kind: "infeasible"})
	}
	d := Dec{Alt: int16(pick), Forced: others == 0}
	m.dec = append(m.dec, d)
	if others == 0 {
		m.stats.Forced++
	} else {
		m.addPC(alts[pick])
	}
	return pick
}

func (m *Machine) branch(c *Term) bool {
	switch c {
	case m.ctx.True:
		return true
	case m.ctx.False:
		return false
	}
	return m.decideN([]*Term{c, m.ctx.Not(c)}) == 0
}

// truth decides a boolean value.
func (m *Machine) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return m.branch(v)
	}
	panic(fmt.Sprintf("truth: %T", v))
}

// choose forks into n alternatives without a condition.
func (m *Machine) choose(n int) int {
	m.noSpec()
	pos := len(m.dec)
	if n <= 1 {
		return 0
	}
	if pos < len(m.prefix) {
		d := m.prefix[pos]
		m.dec = append(m.dec, d)
		return int(d.Alt)
	}
	m.needModel()
	m.stats.Branches++
	for i := n - 1; i >= 1; i-- {
		p := make([]Dec, pos+1)
		copy(p, m.dec)
		p[pos] = Dec{Alt: int16(i)}
		m.fork(p, m.model)
	}
	m.dec = append(m.dec, Dec{})
	return 0
}

// assume restricts the path to c.
func (m *Machine) assume(c *Term) {
	if c == m.ctx.True {
		return
	}
	if c == m.ctx.False {
		panic(pathEnd{kind: "assume"})
	}
	pos := len(m.dec)
	if pos < len(m.prefix) {
		m.dec = append(m.dec, m.prefix[pos])
		m.addPC(c)
		return
	}
	m.needModel()
	if !m.holds(c) {
		res, mm := m.sat(c, false)
		if res == Unsat {
			panic(pathEnd{kind: "assume"})
		}
		if res == Unknown {
			m.stats.Unknown++
			panic(pathEnd{kind: "unknown", msg: "assume"})
		}
		m.model = mm
	}
	m.dec = append(m.dec, Dec{})
	m.addPC(c)
}

// assert checks c on every input of the path. On a violation it reports a
// model and goes on with the inputs for which c holds.
func (m *Machine) assert(c *Term, kind, known, msg string) {
	pos := len(m.dec)
	if pos < len(m.prefix) {
		d := m.prefix[pos]
		m.dec = append(m.dec, d)
		if !d.Forced {
			m.addPC(c)
		}
		return
	}
	m.stats.Asserts++
	if c == m.ctx.True {
		m.dec = append(m.dec, Dec{Forced: true})
		return
	}
	if (kind == "known" || kind == "suspect") && m.knownDone != nil && m.knownDone(kind+known+msg) {
		// seen often enough; nothing is assumed
		m.dec = append(m.dec, Dec{Forced: true})
		return
	}
	m.needModel()
	m.stats.AssertQ++
	neg := m.ctx.Not(c)
	res, mm := m.sat(neg, true)
	switch res {
	case Unsat:
		m.dec = append(m.dec, Dec{Forced: true})
		return
	case Unknown:
		m.stats.Unknown++
		m.unknown++
		if m.undecided == nil {
			m.undecided = map[string]int64{}
		}
		m.undecided["undecided: "+msg]++
	case Sat:
		m.reportWith(neg, mm, kind, known, msg)
	}
	if kind == "known" || kind == "suspect" {
		// the path goes on either way
		m.dec = append(m.dec, Dec{Forced: true})
		return
	}
	if !m.holds(c) {
		res, mm := m.sat(c, false)
		if res != Sat {
			if res == Unknown {
				m.stats.Unknown++
			}
			panic(pathEnd{kind: "stop", msg: msg})
		}
		m.model = mm
	}
	m.dec = append(m.dec, Dec{})
	m.addPC(c)
}

func (m *Machine) reportWith(neg *Term, mm *Model, kind, known, msg string) {
	conds := append(append([]*Term{}, m.pc...), neg)
	if g := m.gridModel(conds); g != nil {
		mm = g
	}
	m.report(&Violation{Msg: msg, Known: known, Kind: kind, Vals: m.ndJSON(mm)})
}

// gridModel asks for a model whose real variables are multiples of 1/64, so
// that the inputs are the same numbers in floating point.
func (m *Machine) gridModel(conds []*Term) *Model {
	var vars []uint64
	for _, t := range conds {
		vars = orset(vars, t.vars)
	}
	var extra []*Term
	for i, w := range vars {
		for b := 0; w != 0; b++ {
			if w&1 != 0 {
				v := m.ctx.vlist[i*64+b]
				if v.op == OVar && v.sk == SReal {
					s := m.ctx.AOp(OAMul, m.ctx.Real(64), v)
					extra = append(extra, m.ctx.Eq(m.ctx.ToReal(m.ctx.Floor(s)), s))
				}
			}
			w >>= 1
		}
	}
	all := append(append([]*Term{}, conds...), extra...)
	res, mm := m.sol.Check(all)
	if res != Sat {
		return nil
	}
	return mm
}

// ---- methods and types

func (m *Machine) method(t types.Type, meth *types.Func) *Fn {
	k := methodKey{t, meth.Id()}
	if f, ok := m.methods[k]; ok {
		return f
	}
	sf := m.p.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if sf == nil {
		return nil
	}
	f := m.fnOf(sf)
	m.methods[k] = f
	return f
}

func (m *Machine) findMethod(t types.Type, name string) *Fn {
	ms := m.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return m.fnOf(m.p.prog.MethodValue(s))
		}
	}
	return nil
}

func sameType(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

func (m *Machine) implements(t types.Type, it types.Type) bool {
	k := [2]types.Type{t, it}
	if r, ok := m.assignOK[k]; ok {
		return r
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	m.assignOK[k] = r
	return r
}

// ---- calls

const maxDepth = 4000

func (m *Machine) callV(fv Value, args []Value, caller *frame, in *Ins) Value {
	f, ok := fv.(*FuncV)
	if !ok || f == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if f.builtin != nil {
		return m.builtin(f.builtin, args, caller, in)
	}
	return m.call(f.fn, args, f.free, caller, in)
}

func (m *Machine) call(fn *Fn, args []Value, free []Value, caller *frame, in *Ins) Value {
	if fn.model != nil {
		return fn.model(m, args, in)
	}
	if fn.blocks == nil {
		m.ensure(fn)
	}
	if m.depth >= maxDepth {
		panic(pathEnd{kind: "limit", msg: "call depth in " + fn.name})
	}
	if fn.repo {
		m.encFn[fn.name] = true
	}
	m.depth++
	fr := &frame{m: m, fn: fn, env: make([]Value, fn.nregs), caller: caller}
	m.cur = append(m.cur, fr)
	for i, p := range fn.params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.free {
		fr.env[p] = free[i]
	}
	fr.blk = fn.blocks[0]
	if fn.hasDefer {
		for fr.blk != nil {
			fr.runDefers1()
		}
	} else {
		fr.run()
	}
	m.depth--
	m.cur = m.cur[:len(m.cur)-1]
	return fr.result
}

// runDefers1 runs the frame's body with panics of the target intercepted.
func (fr *frame) runDefers1() {
	m := fr.m
	depth, cur := m.depth, len(m.cur)
	defer func() {
		if fr.blk == nil {
			return // normal return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		m.depth = depth
		m.cur = m.cur[:cur]
		fr.panicking = true
		fr.panicV = tp.v
		fr.runDefers() // panics again if not recovered
		fr.blk = fr.fn.recover
		fr.prev = nil
		if fr.blk == nil {
			// no named results: zero
			res := fr.fn.f.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = zeroOf(res.At(0).Type())
			default:
				fr.result = zeroOf(res)
			}
		}
	}()
	fr.run()
}

func (fr *frame) runDefers() {
	m := fr.m
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	_ = m
	if fr.panicking {
		panic(targetPanic{fr.panicV})
	}
}

func (fr *frame) runDefer(d deferred) {
	m := fr.m
	depth, cur := m.depth, len(m.cur)
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		tp, is := r.(targetPanic)
		if !is {
			panic(r)
		}
		m.depth = depth
		m.cur = m.cur[:cur]
		fr.panicking = true
		fr.panicV = tp.v
	}()
	m.callV(d.fn, d.args, fr, d.in)
	ok = true
}

func (fr *frame) get(o *Opnd) Value {
	switch o.k {
	case okReg:
		return fr.env[o.i]
	case okGlobal:
		return fr.m.global(o.g)
	}
	return o.v
}

func (m *Machine) where() string {
	var sb strings.Builder
	for i := len(m.cur) - 1; i >= 0 && i > len(m.cur)-8; i-- {
		sb.WriteString(" < " + m.cur[i].fn.name)
	}
	return sb.String()
}

// run executes blocks until the function returns (fr.blk becomes nil).
func (fr *frame) run() {
	m := fr.m
	for {
		blk := fr.blk
		if len(blk.phis) > 0 && fr.prev != nil {
			fr.phis(blk, fr.prev)
		}
		m.steps += int64(len(blk.ins) + 1)
		if m.steps > m.limit {
			panic(pathEnd{kind: "limit", msg: "steps in " + fr.fn.name})
		}
		next := fr.exec(blk)
		if next == nil {
			fr.blk = nil
			return
		}
		if fr.prev != nil || fr.blk == blk {
			// exec may have moved fr.blk/prev itself (merging)
		}
		fr.blk = next
	}
}

func (fr *frame) phis(blk, prev *Blk) {
	pi := -1
	for i, p := range blk.preds {
		if p == prev {
			pi = i
			break
		}
	}
	if pi < 0 {
		panic("phi: bad predecessor in " + fr.fn.name)
	}
	if len(blk.phis) == 1 {
		fr.env[blk.phis[0].dst] = fr.get(&blk.phis[0].a[pi])
		return
	}
	var buf [16]Value
	vs := buf[:0]
	for i := range blk.phis {
		vs = append(vs, fr.get(&blk.phis[i].a[pi]))
	}
	for i := range blk.phis {
		fr.env[blk.phis[i].dst] = vs[i]
	}
}

// exec runs the instructions of blk; it returns the next block.
func (fr *frame) exec(blk *Blk) *Blk {
	m := fr.m
	for i := range blk.ins {
		x := &blk.ins[i]
		switch in := x.in.(type) {
		case *ssa.If:
			switch c := fr.get(&x.a[0]).(type) {
			case bool:
				fr.prev = blk
				if c {
					return blk.succs[0]
				}
				return blk.succs[1]
			case *Term:
				if c == m.ctx.True || c == m.ctx.False {
					fr.prev = blk
					if c == m.ctx.True {
						return blk.succs[0]
					}
					return blk.succs[1]
				}
				return fr.symIf(blk, c)
			default:
				panic(fmt.Sprintf("if: %T", c))
			}
		case *ssa.Jump:
			fr.prev = blk
			return blk.succs[0]
		case *ssa.Return:
			switch len(x.a) {
			case 0:
			case 1:
				fr.result = fr.get(&x.a[0])
			default:
				t := make(Tuple, len(x.a))
				for j := range x.a {
					t[j] = fr.get(&x.a[j])
				}
				fr.result = t
			}
			return nil
		case *ssa.Panic:
			v := fr.get(&x.a[0])
			panic(targetPanic{v})
		case *ssa.Call:
			fn, args := fr.prep(x)
			var r Value
			if x.fn != nil {
				r = m.call(x.fn, args, nil, fr, x)
			} else {
				r = m.callV(fn, args, fr, x)
			}
			fr.env[x.dst] = r
		case *ssa.Defer:
			fn, args := fr.prep(x)
			if x.fn != nil {
				fn = &FuncV{fn: x.fn}
			}
			fr.defers = append(fr.defers, deferred{fn: fn, args: args, in: x})
		case *ssa.RunDefers:
			fr.runDefers()
		case *ssa.Store:
			m.storeTo(fr.get(&x.a[0]), fr.get(&x.a[1]))
		case *ssa.MapUpdate:
			m.mapSet(fr.get(&x.a[0]), fr.get(&x.a[1]), fr.get(&x.a[2]))
		case *ssa.Go:
			unsup("go statement")
		case *ssa.Send, *ssa.Select, *ssa.MakeChan:
			unsup("channel operation")
		default:
			_ = in
			fr.env[x.dst] = fr.eval(x)
		}
	}
	panic("fell off block in " + fr.fn.name)
}

// prep evaluates the callee and the arguments of a call.
func (fr *frame) prep(x *Ins) (Value, []Value) {
	m := fr.m
	c := x.in.(ssa.CallInstruction).Common()
	if x.iv {
		rv := fr.get(&x.a[0])
		itf, ok := rv.(Iface)
		if !ok {
			panic(fmt.Sprintf("invoke on %T in %s", rv, fr.fn.name))
		}
		if itf.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := m.method(itf.t, c.Method)
		if fn == nil {
			panic(fmt.Sprintf("no method %v on %v", c.Method, itf.t))
		}
		args := make([]Value, len(x.a))
		args[0] = copyVal(itf.v)
		for i := 1; i < len(x.a); i++ {
			args[i] = fr.get(&x.a[i])
		}
		return &FuncV{fn: fn}, args
	}
	var fv Value
	if x.fn == nil {
		fv = fr.get(&x.a[0])
	}
	args := make([]Value, len(x.a)-1)
	for i := range args {
		args[i] = fr.get(&x.a[i+1])
	}
	return fv, args
}

// eval evaluates a value instruction.
func (fr *frame) eval(x *Ins) Value {
	m := fr.m
	switch in := x.in.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = zeroOf(in.Type().(*types.Pointer).Elem())
		return p
	case *ssa.BinOp:
		return m.binop(in.Op, fr.get(&x.a[0]), fr.get(&x.a[1]), x)
	case *ssa.UnOp:
		return m.unop(in, fr.get(&x.a[0]), x)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		return fr.get(&x.a[0])
	case *ssa.Convert:
		return m.convert(fr.get(&x.a[0]), in.X.Type(), in.Type(), x)
	case *ssa.Extract:
		return fr.get(&x.a[0]).(Tuple)[in.Index]
	case *ssa.Field:
		return copyVal(fr.get(&x.a[0]).(Struct)[in.Field])
	case *ssa.FieldAddr:
		switch p := fr.get(&x.a[0]).(type) {
		case *Value:
			if p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(Struct)
			if !ok {
				panic(fmt.Sprintf("fieldaddr: %T in %s: %v", *p, fr.fn.name, in))
			}
			return &s[in.Field]
		case *SymPtr:
			i := m.concretize(p.idx, len(p.slots))
			return &p.slots[i].(Struct)[in.Field]
		}
		panic("fieldaddr")
	case *ssa.IndexAddr:
		return m.indexAddr(fr.get(&x.a[0]), fr.get(&x.a[1]), x)
	case *ssa.Index:
		return m.index(fr.get(&x.a[0]), fr.get(&x.a[1]), x)
	case *ssa.Lookup:
		if s := fr.get(&x.a[0]); true {
			switch s.(type) {
			case string, *SymStr:
				return m.index(s, fr.get(&x.a[1]), x)
			}
			mt := in.X.Type().Underlying().(*types.Map)
			v, ok := m.mapGet(s.(*MapV), fr.get(&x.a[1]), mt.Elem(), in.CommaOk, x)
			if in.CommaOk {
				return Tuple{v, ok}
			}
			return v
		}
	case *ssa.MakeClosure:
		free := make([]Value, len(x.a))
		for i := range x.a {
			free[i] = fr.get(&x.a[i])
		}
		return &FuncV{fn: x.fn, free: free}
	case *ssa.MakeInterface:
		return Iface{in.X.Type(), copyVal(fr.get(&x.a[0]))}
	case *ssa.MakeMap:
		return newMap(in.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeSlice:
		n := m.concInt(fr.get(&x.a[0]))
		c := m.concInt(fr.get(&x.a[1]))
		if n < 0 || n > 1<<24 {
			m.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			m.rtPanic("makeslice: cap out of range")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, c)
		fillZero(s, et)
		return s[:n]
	case *ssa.Next:
		return m.next(fr.get(&x.a[0]).(*Iter), in, x)
	case *ssa.Phi:
		panic("phi")
	case *ssa.Range:
		switch v := fr.get(&x.a[0]).(type) {
		case *MapV:
			it := &Iter{pos: int64(0), m: v}
			if m.watch {
				m.sharedReadMap(v)
			}
			if m.backwards && v != nil {
				it.back = len(v.ents)
			}
			return it
		case string, *SymStr:
			return &Iter{pos: int64(0), str: v}
		}
		panic("range")
	case *ssa.Slice:
		return m.slice(fr, in, x)
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.TypeAssert:
		return m.typeAssert(fr.get(&x.a[0]), in)
	}
	unsup("instruction %T", x.in)
	return nil
}

func fillZero(s []Value, et types.Type) {
	z := zeroOf(et)
	switch z.(type) {
	case Struct, Array:
		for i := range s {
			s[i] = zeroOf(et)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
}

func (m *Machine) typeAssert(v Value, in *ssa.TypeAssert) Value {
	itf := v.(Iface)
	ok := false
	_, toItf := in.AssertedType.Underlying().(*types.Interface)
	if itf.t != nil {
		if toItf {
			ok = m.implements(itf.t, in.AssertedType)
		} else {
			ok = sameType(itf.t, in.AssertedType)
		}
	}
	var r Value
	if ok {
		if toItf {
			r = itf
		} else {
			r = copyVal(itf.v)
		}
	} else if in.CommaOk {
		r = zeroOf(in.AssertedType)
	} else {
		have := "nil"
		if itf.t != nil {
			have = itf.t.String()
		}
		m.rtPanic("interface conversion: %v is %s, not %v", in.X.Type(), have, in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{r, ok}
	}
	return r
}

// idxBounds checks an index against n, forking on a symbolic one, and
// returns it as an int or a BV term within range.
func (m *Machine) idxIn(iv Value, n int, x *Ins) (int, *Term) {
	switch i := iv.(type) {
	case int64:
		if (i < 0 && x.n.signed) || uint64(i) >= uint64(n) {
			m.rtPanic("index out of range [%d] with length %d", i, n)
		}
		return int(i), nil
	case *Term:
		var ok *Term
		if i.sk == SInt {
			ok = m.ctx.And(m.ctx.ALe(m.ctx.IntC(0), i), m.ctx.ALt(i, m.ctx.IntC(int64(n))))
		} else {
			w := i
			if i.w < 64 {
				w = m.ctx.Resize(i, 64, x.n.signed)
			}
			i = w
			ok = m.ctx.Ult(i, m.ctx.BV(uint64(n), 64))
		}
		if !m.branch(ok) {
			m.rtPanic("index out of range [sym] with length %d", n)
		}
		if i.op == OConst {
			return int(i.u), nil
		}
		return 0, i
	}
	panic(fmt.Sprintf("index: %T", iv))
}

func (m *Machine) indexAddr(av, iv Value, x *Ins) Value {
	var s []Value
	switch a := av.(type) {
	case Slice:
		s = a
	case *Value:
		if a == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		s = (*a).(Array)
	default:
		panic(fmt.Sprintf("indexaddr: %T", av))
	}
	i, t := m.idxIn(iv, len(s), x)
	if t == nil {
		return &s[i]
	}
	if t.sk == SInt {
		return &s[m.concretize(t, len(s))]
	}
	return &SymPtr{slots: s, idx: t, n: elemNum(x)}
}

func elemNum(x *Ins) numInfo {
	switch in := x.in.(type) {
	case *ssa.IndexAddr:
		return numOf(in.Type().Underlying().(*types.Pointer).Elem())
	case ssa.Value:
		return numOf(in.Type())
	}
	return numInfo{}
}

func (m *Machine) index(av, iv Value, x *Ins) Value {
	switch a := av.(type) {
	case Array:
		i, t := m.idxIn(iv, len(a), x)
		if t == nil {
			return copyVal(a[i])
		}
		if t.sk == SInt {
			return copyVal(a[m.concretize(t, len(a))])
		}
		return m.symLoad(&SymPtr{slots: a, idx: t, n: elemNum(x)})
	case string:
		i, t := m.idxIn(iv, len(a), x)
		if t == nil {
			return int64(a[i])
		}
		if t.sk == SInt {
			return int64(a[m.concretize(t, len(a))])
		}
		return m.symLoad(&SymPtr{slots: strBytes(a), idx: t, n: numInfo{nkInt, 8, false}})
	case *SymStr:
		i, t := m.idxIn(iv, len(a.b), x)
		if t == nil {
			return a.b[i]
		}
		if t.sk == SInt {
			return a.b[m.concretize(t, len(a.b))]
		}
		return m.symLoad(&SymPtr{slots: a.b, idx: t, n: numInfo{nkInt, 8, false}})
	}
	panic(fmt.Sprintf("index: %T", av))
}

func (m *Machine) slice(fr *frame, in *ssa.Slice, x *Ins) Value {
	v := fr.get(&x.a[0])
	k := 1
	arg := func(present bool, def int) int {
		if !present {
			return def
		}
		a := fr.get(&x.a[k])
		k++
		return int(m.concInt(a))
	}
	// Operands order: X, Low, High, Max (nil ones included as const nil)
	k = 1
	get := func(p ssa.Value, i int, def int) int {
		if p == nil {
			return def
		}
		return int(m.concInt(fr.get(&x.a[i])))
	}
	_ = arg
	switch s := v.(type) {
	case string, *SymStr:
		n := strLen(s)
		lo := get(in.Low, 1, 0)
		hi := get(in.High, 2, n)
		if hi < 0 || hi > n {
			m.rtPanic("slice bounds out of range [:%d] with length %d", hi, n)
		}
		if lo < 0 || lo > hi {
			m.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return strSlice(s, lo, hi)
	case Slice:
		lo := get(in.Low, 1, 0)
		hi := get(in.High, 2, len(s))
		mx := get(in.Max, 3, cap(s))
		if mx < 0 || mx > cap(s) {
			m.rtPanic("slice bounds out of range [::%d] with capacity %d", mx, cap(s))
		}
		if hi < 0 || hi > mx {
			m.rtPanic("slice bounds out of range [:%d] with capacity %d", hi, cap(s))
		}
		if lo < 0 || lo > hi {
			m.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return s[lo:hi:mx]
	case *Value:
		if s == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := []Value((*s).(Array))
		lo := get(in.Low, 1, 0)
		hi := get(in.High, 2, len(a))
		mx := get(in.Max, 3, len(a))
		if mx < 0 || mx > len(a) || hi < 0 || hi > mx || lo < 0 || lo > hi {
			m.rtPanic("slice bounds out of range [%d:%d:%d]", lo, hi, mx)
		}
		return Slice(a[lo:hi:mx])
	}
	panic(fmt.Sprintf("slice: %T", v))
}

func (m *Machine) next(it *Iter, in *ssa.Next, x *Ins) Value {
	pos := int(it.pos.(int64))
	if in.IsString {
		n := strLen(it.str)
		if pos >= n {
			return Tuple{false, int64(pos), int64(0)}
		}
		r, size := m.decodeRune(strSlice(it.str, pos, n))
		m.set(&it.pos, int64(pos+size))
		return Tuple{true, int64(pos), r}
	}
	if it.m != nil {
		for pos < len(it.m.ents) {
			e := it.m.ents[pos]
			if it.back > 0 {
				if pos >= it.back {
					break
				}
				e = it.m.ents[it.back-1-pos]
			}
			pos++
			if e.dead {
				continue
			}
			m.set(&it.pos, int64(pos))
			return Tuple{true, e.k, copyVal(e.v)}
		}
		m.set(&it.pos, int64(pos))
	}
	tt := in.Type().(*types.Tuple)
	z := Tuple{false, nil, nil}
	for i := 1; i < 3; i++ {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			continue
		}
		z[i] = zeroOf(tt.At(i).Type())
	}
	return z
}

// decodeRune decodes the first rune of a string.
func (m *Machine) decodeRune(s Value) (Value, int) {
	switch b := strAt(s, 0).(type) {
	case *Term:
		if b.umax < 0x80 || m.branch(m.ctx.Ult(b, m.ctx.BV(0x80, 8))) {
			return m.ctx.Resize(b, 32, false), 1
		}
	case int64:
		if b < 0x80 {
			return b, 1
		}
		if c, ok := s.(string); ok {
			for i, r := range c {
				_ = i
				n := len(string(r))
				if r == 0xFFFD && !strings.HasPrefix(c, "\uFFFD") {
					n = 1
				}
				return int64(r), n
			}
		}
	}
	f := m.p.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	t := m.call(m.fnOf(f), []Value{s}, nil, nil, nil).(Tuple)
	return t[0], int(m.concInt(t[1]))
}

// ---- maps

func newMap(kt types.Type) *MapV {
	return &MapV{idx: map[string]int32{}, kt: kt}
}

func (m *Machine) find(mv *MapV, k Value) (*MapEnt, bool) {
	var sb strings.Builder
	if !keyStr(&sb, k) {
		return nil, false
	}
	if i, ok := mv.idx[sb.String()]; ok {
		return mv.ents[i], true
	}
	return nil, true
}

func (m *Machine) mapCands(mv *MapV, k Value) ([]*MapEnt, []*Term) {
	var es []*MapEnt
	var cs []*Term
	for _, e := range mv.ents {
		if e.dead {
			continue
		}
		switch c := m.eqv(e.k, k).(type) {
		case bool:
			if c {
				return []*MapEnt{e}, []*Term{m.ctx.True}
			}
		case *Term:
			if c != m.ctx.False {
				es = append(es, e)
				cs = append(cs, c)
			}
		}
	}
	return es, cs
}

func (m *Machine) mapGet(mv *MapV, k Value, et types.Type, commaOk bool, x *Ins) (Value, Value) {
	if mv == nil {
		return zeroOf(et), false
	}
	if itf, ok := k.(Iface); ok {
		m.hashable(itf)
	}
	if m.watch {
		m.sharedReadMap(mv)
	}
	e, conc := m.find(mv, k)
	if conc {
		if e != nil {
			return copyVal(e.v), true
		}
		if mv.nsym == 0 {
			return zeroOf(et), false
		}
	}
	es, cs := m.mapCands(mv, k)
	if len(es) == 0 {
		return zeroOf(et), false
	}
	if cs[0] == m.ctx.True {
		return copyVal(es[0].v), true
	}
	any := m.ctx.OrN(cs)
	// only the ok is used
	if commaOk && x != nil && !x.xuse[0] {
		return zeroOf(et), any
	}
	// group by value
	type group struct {
		v Value
		c []*Term
	}
	var gs []*group
	scalar := true
	for i, e := range es {
		var g *group
		for _, h := range gs {
			if shallowSame(h.v, e.v) {
				g = h
				break
			}
		}
		if g == nil {
			g = &group{v: e.v}
			gs = append(gs, g)
		}
		g.c = append(g.c, cs[i])
		switch e.v.(type) {
		case int64, bool, *Term, float64:
		default:
			scalar = false
		}
	}
	if scalar && len(gs) > 3 {
		var r Value = zeroOf(et)
		for _, g := range gs {
			v, ok := m.iteN(m.ctx.OrN(g.c), g.v, r, numOf(et))
			if !ok {
				unsup("map value merge")
			}
			r = v
		}
		return r, any
	}
	alts := make([]*Term, 0, len(gs)+1)
	for _, g := range gs {
		alts = append(alts, m.ctx.OrN(g.c))
	}
	alts = append(alts, m.ctx.Not(any))
	i := m.decideN(alts)
	if i == len(gs) {
		return zeroOf(et), false
	}
	return copyVal(gs[i].v), true
}

func (m *Machine) hashable(v Iface) {
	if v.t == nil {
		return
	}
	if !types.Comparable(v.t) {
		m.rtPanic("hash of unhashable type %v", v.t)
	}
}

// shallowSame reports whether two values are certainly indistinguishable.
func shallowSame(a, b Value) bool {
	switch x := a.(type) {
	case int64, bool, string, *Value, *Term, *MapV, *FuncV:
		return a == b
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		if x.t == nil {
			return true
		}
		return sameType(x.t, y.t) && shallowSame(x.v, y.v)
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !shallowSame(x[i], y[i]) {
				return false
			}
		}
		return true
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !shallowSame(x[i], y[i]) {
				return false
			}
		}
		return true
	case Slice:
		y, ok := b.(Slice)
		return ok && len(x) == len(y) && cap(x) == cap(y) && (cap(x) == 0 && (x == nil) == (y == nil) || cap(x) > 0 && &x[:1][0] == &y[:1][0])
	case *SymStr:
		y, ok := b.(*SymStr)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return false
}

func (m *Machine) log(f func()) {
	if m.logging {
		m.trail = append(m.trail, undo{f: f})
	}
}

func (m *Machine) mapSet(mvv, k, v Value) {
	mv := mvv.(*MapV)
	if mv == nil {
		panic(targetPanic{Iface{m.rtErrT, "assignment to entry in nil map"}})
	}
	if itf, ok := k.(Iface); ok {
		m.hashable(itf)
	}
	if m.racing && m.isSharedMap(mv) {
		if m.watch {
			m.sharedWrite(" (map)", nil, mv)
		}
		m.mark(k, m.dyn, m.dynM)
		m.mark(v, m.dyn, m.dynM)
	}
	v = copyVal(v)
	e, conc := m.find(mv, k)
	if conc && e != nil {
		m.set(&e.v, v)
		return
	}
	if !conc || mv.nsym > 0 {
		es, cs := m.mapCands(mv, k)
		if len(es) > 0 {
			var i int
			if cs[0] == m.ctx.True {
				i = 0
			} else {
				i = m.decideN(append(append([]*Term{}, cs...), m.ctx.Not(m.ctx.OrN(cs))))
			}
			if i < len(es) {
				m.set(&es[i].v, v)
				return
			}
		}
	}
	n := &MapEnt{k: copyVal(k), v: v}
	if m.racing && m.isSharedMap(mv) {
		m.dyn[&n.v] = true
	}
	var key string
	if conc {
		var sb strings.Builder
		keyStr(&sb, k)
		key = sb.String()
		mv.idx[key] = int32(len(mv.ents))
	} else {
		mv.nsym++
	}
	mv.ents = append(mv.ents, n)
	mv.live++
	if m.logging {
		m.trail = append(m.trail, undo{f: func() {
			mv.ents = mv.ents[:len(mv.ents)-1]
			mv.live--
			if conc {
				delete(mv.idx, key)
			} else {
				mv.nsym--
			}
		}})
	}
}

func (m *Machine) mapDelete(mv *MapV, k Value) {
	if mv == nil {
		return
	}
	if m.racing && m.isSharedMap(mv) {
		if m.watch {
			m.sharedWrite(" (map)", nil, mv)
		}
	}
	var hit *MapEnt
	e, conc := m.find(mv, k)
	if conc && mv.nsym == 0 {
		hit = e
	} else {
		es, cs := m.mapCands(mv, k)
		if len(es) == 0 {
			return
		}
		i := 0
		if cs[0] != m.ctx.True {
			i = m.decideN(append(append([]*Term{}, cs...), m.ctx.Not(m.ctx.OrN(cs))))
		}
		if i < len(es) {
			hit = es[i]
		}
	}
	if hit == nil {
		return
	}
	hit.dead = true
	mv.live--
	var sb strings.Builder
	hc := keyStr(&sb, hit.k)
	var old int32
	if hc {
		old = mv.idx[sb.String()]
		delete(mv.idx, sb.String())
	}
	m.log(func() {
		hit.dead = false
		mv.live++
		if hc {
			mv.idx[sb.String()] = old
		}
	})
}

// ---- equality

func (m *Machine) boolV(t *Term) Value {
	if t == m.ctx.True {
		return true
	}
	if t == m.ctx.False {
		return false
	}
	return t
}

func (m *Machine) boolT(v Value) *Term {
	switch v := v.(type) {
	case bool:
		return m.ctx.Bool(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("boolT: %T", v))
}

func (m *Machine) andV(a, b Value) Value {
	if a == false || b == false {
		return false
	}
	return m.boolV(m.ctx.And(m.boolT(a), m.boolT(b)))
}

func (m *Machine) eqv(x, y Value) Value {
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return m.boolV(m.ctx.Eq(m.boolT(x), m.boolT(y)))
	case int64:
		if b, ok := y.(int64); ok {
			return a == b
		}
		t := y.(*Term)
		return m.boolV(m.ctx.Eq(t, m.likeInt(a, t)))
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
		if math.IsNaN(a) || math.IsInf(a, 0) {
			return false
		}
		return m.boolV(m.ctx.Eq(y.(*Term), m.ctx.Real(a)))
	case *Term:
		switch b := y.(type) {
		case *Term:
			if a.sk != b.sk {
				a, b = m.sameSort(a, b)
			}
			return m.boolV(m.ctx.Eq(a, b))
		default:
			return m.eqv(y, x)
		}
	case string:
		if b, ok := y.(string); ok {
			return a == b
		}
		return m.strEq(x, y)
	case *SymStr:
		return m.strEq(x, y)
	case *Value:
		switch b := y.(type) {
		case *Value:
			return a == b
		case nil:
			return a == nil
		case *SymPtr:
			if a == nil {
				return false
			}
		}
		unsup("compare pointers %T %T", x, y)
	case *SymPtr:
		if b, ok := y.(*Value); ok && b == nil {
			return false
		}
		unsup("compare symbolic pointers")
	case Slice:
		if b, ok := y.(Slice); ok && (a == nil || b == nil) {
			return a == nil && b == nil
		}
		if y == nil {
			return a == nil
		}
		unsup("compare slices")
	case *MapV:
		b, ok := y.(*MapV)
		return ok && a == b || y == nil && a == nil
	case *FuncV:
		b, ok := y.(*FuncV)
		return ok && a == b || y == nil && a == nil
	case *ChanV:
		b, ok := y.(*ChanV)
		return ok && a == b || y == nil && a == nil
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return a.t == nil
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !sameType(a.t, b.t) {
			return false
		}
		if !types.Comparable(a.t) {
			m.rtPanic("comparing uncomparable type %v", a.t)
		}
		return m.eqv(a.v, b.v)
	case Struct:
		b := y.(Struct)
		var r Value = true
		for i := range a {
			r = m.andV(r, m.eqv(a[i], b[i]))
			if r == false {
				return r
			}
		}
		return r
	case Array:
		b := y.(Array)
		var r Value = true
		for i := range a {
			r = m.andV(r, m.eqv(a[i], b[i]))
			if r == false {
				return r
			}
		}
		return r
	case complex128:
		return a == y.(complex128)
	case nil:
		if y == nil {
			return true
		}
		return m.eqv(y, nil)
	}
	panic(fmt.Sprintf("eq: %T %T", x, y))
}

func (m *Machine) strEq(x, y Value) Value {
	n := strLen(x)
	if n != strLen(y) {
		return false
	}
	ts := make([]*Term, 0, n)
	for i := 0; i < n; i++ {
		switch c := m.eqv(strAt(x, i), strAt(y, i)).(type) {
		case bool:
			if !c {
				return false
			}
		case *Term:
			ts = append(ts, c)
		}
	}
	return m.boolV(m.ctx.AndN(ts))
}

// strCmpLess: x < y lexicographically.
func (m *Machine) strLess(x, y Value) Value {
	n := min(strLen(x), strLen(y))
	r := m.ctx.Bool(strLen(x) < strLen(y))
	for i := n - 1; i >= 0; i-- {
		a, b := m.toBV(strAt(x, i), 8), m.toBV(strAt(y, i), 8)
		r = m.ctx.Or(m.ctx.Ult(a, b), m.ctx.And(m.ctx.Eq(a, b), r))
	}
	return m.boolV(r)
}

// likeInt makes a constant of t's sort.
func (m *Machine) likeInt(a int64, t *Term) *Term {
	switch t.sk {
	case SBV:
		return m.ctx.BV(uint64(a), t.w)
	case SInt:
		return m.ctx.IntC(a)
	}
	panic("likeInt: sort")
}

func (m *Machine) toBV(v Value, w uint8) *Term {
	switch v := v.(type) {
	case int64:
		return m.ctx.BV(uint64(v), w)
	case *Term:
		if v.sk == SBV {
			if v.w != w {
				panic(fmt.Sprintf("toBV: width %d, want %d", v.w, w))
			}
			return v
		}
		unsup("integer term as bit-vector")
	}
	panic(fmt.Sprintf("toBV: %T", v))
}

func (m *Machine) sameSort(a, b *Term) (*Term, *Term) {
	if a.sk == SBV && b.sk == SInt {
		return m.bvToInt(a), b
	}
	if a.sk == SInt && b.sk == SBV {
		return a, m.bvToInt(b)
	}
	unsup("sorts %v %v", a.sk, b.sk)
	return nil, nil
}

// bvToInt: only for ITE trees of constants and small ranges.
func (m *Machine) bvToInt(t *Term) *Term {
	if t.op == OConst {
		return m.ctx.IntC(sx(t.u, t.w))
	}
	if t.op == OIte {
		return m.ctx.Ite(t.a, m.bvToInt(t.b), m.bvToInt(t.c))
	}
	if t.op == OSext || t.op == OZext && t.a.op == OIte {
		return m.bvToInt(t.a)
	}
	unsup("bit-vector as integer")
	return nil
}

// ite merges two values under a condition.
func (m *Machine) ite(c *Term, a, b Value) (Value, bool) {
	if c == m.ctx.True {
		return a, true
	}
	if c == m.ctx.False {
		return b, true
	}
	switch x := a.(type) {
	case bool:
		switch b.(type) {
		case bool, *Term:
			return m.boolV(m.ctx.Ite(c, m.boolT(a), m.boolT(b))), true
		}
		return nil, false
	case int64:
		switch y := b.(type) {
		case int64:
			if x == y {
				return a, true
			}
			// width unknown here: 64 would be wrong for narrower types
			return nil, false
		case *Term:
			if y.sk == SBV || y.sk == SInt {
				return m.fromT(m.ctx.Ite(c, m.likeInt(x, y), y)), true
			}
		}
		return nil, false
	case float64:
		if math.IsInf(x, 0) || math.IsNaN(x) {
			y, ok := b.(float64)
			return a, ok && math.Float64bits(x) == math.Float64bits(y)
		}
		switch y := b.(type) {
		case float64:
			if math.IsInf(y, 0) || math.IsNaN(y) {
				return nil, false
			}
			if x == y {
				return a, true
			}
			return m.ctx.Ite(c, m.ctx.Real(x), m.ctx.Real(y)), true
		case *Term:
			if y.sk == SReal {
				return m.ctx.Ite(c, m.ctx.Real(x), y), true
			}
		}
		return nil, false
	case *Term:
		switch y := b.(type) {
		case *Term:
			if x.sk == y.sk && x.w == y.w {
				return m.ctx.Ite(c, x, y), true
			}
		case bool:
			if x.sk == SBool {
				return m.boolV(m.ctx.Ite(c, x, m.ctx.Bool(y))), true
			}
		case int64:
			if x.sk == SBV || x.sk == SInt {
				return m.ctx.Ite(c, x, m.likeInt(y, x)), true
			}
		case float64:
			if x.sk == SReal && !math.IsInf(y, 0) && !math.IsNaN(y) {
				return m.ctx.Ite(c, x, m.ctx.Real(y)), true
			}
		}
		return nil, false
	}
	if shallowSame(a, b) {
		return a, true
	}
	return nil, false
}

// iteN is ite for values of a known numeric type.
func (m *Machine) iteN(c *Term, a, b Value, n numInfo) (Value, bool) {
	if n.kind == nkInt {
		x, ok1 := a.(int64)
		y, ok2 := b.(int64)
		if ok1 && ok2 && x != y {
			return m.ctx.Ite(c, m.ctx.BV(uint64(x), n.w), m.ctx.BV(uint64(y), n.w)), true
		}
	}
	if n.kind == nkString {
		if strLen(a) != strLen(b) {
			return nil, false
		}
		out := make([]Value, strLen(a))
		for i := range out {
			v, ok := m.iteN(c, strAt(a, i), strAt(b, i), numInfo{nkInt, 8, false})
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return mkStr(out), true
	}
	return m.ite(c, a, b)
}

func (m *Machine) fromT(t *Term) Value { return t }

var _ = token.ADD
