package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"sync"
	"time"
)

func (p *Program) initOK(path string) bool {
	if strings.HasPrefix(path, modPath) {
		return true
	}
	if strings.HasPrefix(path, "golang.org/x/image/font/gofont/") || strings.HasPrefix(path, "github.com/go-fonts/") {
		return true
	}
	switch path {
	case "io", "strings", "bytes", "unicode", "text/scanner", "unicode/utf8", "sort", "math", "math/bits",
		"image/color", "image", "strconv", "internal/strconv", "golang.org/x/image/font", "golang.org/x/image/font/sfnt",
		"golang.org/x/image/font/opentype", "golang.org/x/image/math/fixed", "git.sr.ht/~sbinet/gg":
		return true
	}
	return false
}

// needsInit tells a variable that is set by the initialisation of its
// package, which is skipped.
func (p *Program) needsInit(g *ssa.Global) bool {
	if g.Pkg == nil || g.Pkg.Pkg.Path() == "os" || p.initOK(g.Pkg.Pkg.Path()) || strings.HasPrefix(g.Name(), "init$guard") {
		return false
	}
	f := g.Pkg.Func("init")
	if f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if *o == ssa.Value(g) {
					return true
				}
			}
		}
	}
	return false
}

// NamedModel is a model independent of a worker's terms.
type NamedModel struct {
	bv  map[string]uint64
	num map[string]*big.Rat
}

type Item struct {
	prefix []Dec
	model  *Model
	ctx    *Ctx
	named  *NamedModel
}

func (it *Item) export() {
	if it.named != nil || it.model == nil {
		return
	}
	n := &NamedModel{map[string]uint64{}, map[string]*big.Rat{}}
	for _, v := range it.ctx.vlist {
		if u, ok := it.model.bv[v.id]; ok {
			n.bv[v.name] = u
		}
		if r, ok := it.model.num[v.id]; ok {
			n.num[v.name] = r
		}
	}
	it.named, it.model, it.ctx = n, nil, nil
}

type NDJSON struct {
	T string `json:"t"`
	V string `json:"v"`
}

// evalND renders a value under a model as the native driver reads it.
func evalVal(m *Model, v Value) string {
	e := evaluator{m: m, memo: map[int32]ev{}}
	var r func(v Value) string
	r = func(v Value) string {
		switch v := v.(type) {
		case nil:
			return "nil"
		case bool:
			return strconv.FormatBool(v)
		case int64:
			return strconv.FormatInt(v, 10)
		case float64:
			return "f" + strconv.FormatFloat(v, 'g', 17, 64)
		case string:
			return strconv.QuoteToASCII(v)
		case *SymStr:
			b := make([]byte, len(v.b))
			for i, x := range v.b {
				switch x := x.(type) {
				case int64:
					b[i] = byte(x)
				case *Term:
					b[i] = byte(e.eval(x).u)
				}
			}
			return strconv.QuoteToASCII(string(b))
		case *Term:
			x := e.eval(v)
			switch v.sk {
			case SBool:
				return strconv.FormatBool(x.u == 1)
			case SBV:
				return strconv.FormatUint(x.u, 10)
			case SInt:
				return x.r.Num().String()
			case SReal:
				f, _ := x.r.Float64()
				return "f" + strconv.FormatFloat(f, 'g', 17, 64)
			}
		case Iface:
			if v.t == nil {
				return "nil"
			}
			if t, ok := v.v.(*Term); ok && t.sk == SBV {
				n := numOf(v.t)
				return strconv.FormatInt(norm(e.eval(t).u, n), 10)
			}
			return r(v.v)
		case Slice:
			s := "["
			for i, x := range v {
				if i > 0 {
					s += " "
				}
				s += r(x)
			}
			return s + "]"
		}
		return fmt.Sprintf("<%T>", v)
	}
	return r(v)
}

func (m *Machine) ndJSON(mm *Model) []NDJSON {
	out := make([]NDJSON, len(m.nds))
	for i, n := range m.nds {
		s := evalVal(mm, n.V)
		out[i] = NDJSON{n.T, strings.TrimPrefix(s, "f")}
		if n.T == "t" {
			out[i].V = s
		}
	}
	return out
}

// Sample is one explored path's model, to be replayed on the real build.
type Sample struct {
	Key  uint64
	Vals []NDJSON
	Obs  []string
}

type RunResult struct {
	Spec      *RunSpec
	Paths     int64
	Ended     map[string]int64
	Msgs      map[string]int64
	Stats     PathStats
	Solver    SolverStats
	Reach     map[string]bool
	Viols     []*Violation
	Samples   []*Sample
	Funcs     map[string]bool
	Left      int64
	Wall      time.Duration
	Writes    map[string]bool
	Confirmed *Violation
	Knowns    []*Violation
	MaxDec    int
	Fallback  []*Violation // inputs of paths the encoding could not finish
}

type Explorer struct {
	p     *Program
	spec  *RunSpec
	seed  int64
	nSamp int

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []*Item
	idle    int
	nw      int
	stop    bool
	res     *RunResult
	vkeys   map[string]int
	dead    time.Time
	onViol  func(v *Violation) bool // returns true to stop
	knownID map[string]bool
}

func (ex *Explorer) Run(machines []*Machine) *RunResult {
	ex.cond = sync.NewCond(&ex.mu)
	ex.nw = len(machines)
	ex.res = &RunResult{Spec: ex.spec, Ended: map[string]int64{}, Msgs: map[string]int64{}, Reach: map[string]bool{}, Funcs: map[string]bool{}, Writes: map[string]bool{}}
	ex.vkeys = map[string]int{}
	t0 := time.Now()
	ex.dead = t0.Add(ex.spec.budget())
	ex.queue = []*Item{{named: &NamedModel{map[string]uint64{}, map[string]*big.Rat{}}}}
	var wg sync.WaitGroup
	for _, m := range machines {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			ex.worker(m)
		}(m)
	}
	wg.Wait()
	ex.res.Left += int64(len(ex.queue))
	ex.res.Wall = time.Since(t0)
	sort.Slice(ex.res.Samples, func(i, j int) bool { return ex.res.Samples[i].Key < ex.res.Samples[j].Key })
	return ex.res
}

func (ex *Explorer) worker(m *Machine) {
	// fresh terms for every run
	m.sol.Close()
	m.ctx = NewCtx()
	m.sol = NewSolver(m.ctx, m.sol.cmdline, m.sol.timeout)
	m.stats = PathStats{}
	m.encFn = map[string]bool{}
	m.params = ex.spec.Params
	m.writes = nil
	m.reach = map[string]bool{}
	pkg := ex.p.pkgs[modPath+"/internal/verifh/"+ex.spec.Pkg]
	if pkg == nil {
		fatal("no harness package %s", ex.spec.Pkg)
	}
	hf := pkg.Func(ex.spec.Harness)
	if hf == nil {
		fatal("no harness %s.%s", ex.spec.Pkg, ex.spec.Harness)
	}
	fn := m.fnOf(hf)
	var local []*Item
	m.fork = func(prefix []Dec, model *Model) {
		local = append(local, &Item{prefix: prefix, model: model, ctx: m.ctx})
	}
	m.report = func(v *Violation) { ex.violation(v) }
	m.knownDone = ex.knownDone
	ended := map[string]int64{}
	msgs := map[string]int64{}
	var paths int64
	maxDec := 0
	var solAcc SolverStats
	for {
		var it *Item
		if len(local) > 0 {
			it = local[len(local)-1]
			local = local[:len(local)-1]
		}
		ex.mu.Lock()
		if it == nil {
			ex.idle++
			for len(ex.queue) == 0 && ex.idle < ex.nw && !ex.stop {
				ex.cond.Wait()
			}
			if len(ex.queue) > 0 && !ex.stop {
				it = ex.queue[len(ex.queue)-1]
				ex.queue = ex.queue[:len(ex.queue)-1]
				ex.idle--
			}
		} else if ex.idle > 0 && len(local) > 0 && len(ex.queue) < ex.idle {
			// donate the oldest
			k := min(len(local), ex.idle)
			for _, d := range local[:k] {
				d.export()
				ex.queue = append(ex.queue, d)
			}
			local = append([]*Item{}, local[k:]...)
			ex.cond.Broadcast()
		}
		if it == nil || ex.stop {
			ex.stop = true
			if it != nil {
				ex.res.Left++
			}
			ex.cond.Broadcast()
			ex.mu.Unlock()
			break
		}
		if time.Now().After(ex.dead) {
			ex.stop = true
			ex.res.Left++
			ex.cond.Broadcast()
			ex.mu.Unlock()
			break
		}
		ex.mu.Unlock()
		end := ex.runPath(m, fn, it)
		paths++
		ended[end.kind]++
		if end.kind != "ok" && end.kind != "assume" {
			k := end.kind + ": " + end.msg
			msgs[k]++
			if end.kind == "unsupported" || end.kind == "unknown" {
				ex.fallback(m, k)
			}
		}
		if len(m.dec) > maxDec {
			maxDec = len(m.dec)
		}
		if m.ctx.n > 3_000_000 {
			for _, d := range local {
				d.export()
			}
			solAcc.add(m.sol.stats)
			m.sol.Close()
			m.ctx = NewCtx()
			m.sol = NewSolver(m.ctx, m.sol.cmdline, m.sol.timeout)
		}
	}
	solAcc.add(m.sol.stats)
	m.sol.Close()
	ex.mu.Lock()
	defer ex.mu.Unlock()
	r := ex.res
	r.Left += int64(len(local))
	r.Paths += paths
	for k, v := range ended {
		r.Ended[k] += v
	}
	for k, v := range msgs {
		r.Msgs[k] += v
	}
	for k, v := range m.undecided {
		r.Msgs[k] += v
	}
	r.Solver.add(solAcc)
	r.Stats.Branches += m.stats.Branches
	r.Stats.Forced += m.stats.Forced
	r.Stats.Merged += m.stats.Merged
	r.Stats.Steps += m.stats.Steps
	r.Stats.Asserts += m.stats.Asserts
	r.Stats.AssertQ += m.stats.AssertQ
	r.Stats.Unknown += m.stats.Unknown
	for k := range m.reach {
		r.Reach[k] = true
	}
	for k := range m.encFn {
		r.Funcs[k] = true
	}
	r.MaxDec = max(r.MaxDec, maxDec)
}

func (ex *Explorer) runPath(m *Machine, fn *Fn, it *Item) (end pathEnd) {
	m.pc = m.pc[:0]
	m.dec = nil
	m.prefix = it.prefix
	m.nds = nil
	m.obs = nil
	m.steps = 0
	m.depth = 0
	m.spec = 0
	m.lossy = 0
	m.watch = false
	m.racing = ex.spec.Race
	m.locked, m.rlocked = 0, 0
	if m.racing {
		m.writes = map[string]bool{}
		m.dyn, m.dynM = map[*Value]bool{}, map[*MapV]bool{}
		m.openR, m.openRM = map[*Value]bool{}, map[*MapV]bool{}
		m.lockW, m.lockWM = map[*Value]string{}, map[*MapV]string{}
	}
	m.pools = nil
	m.backwards = false
	m.cur = m.cur[:0]
	m.limit = ex.spec.steps()
	m.pending = it.named
	if it.named != nil {
		m.model = NewModel()
	} else {
		m.model = it.model
	}
	m.logging = true
	defer func() {
		m.stats.Steps += m.steps
		m.undoTo(0)
		m.logging = false
	}()
	defer func() {
		r := recover()
		switch r := r.(type) {
		case nil:
		case pathEnd:
			end = r
			if r.kind == "limit" {
				ex.endViolation(m, "hang", "no termination within the step limit: "+r.msg)
			}
		case targetPanic:
			end = pathEnd{kind: "panic", msg: describe(r.v)}
			ex.endViolation(m, "panic", "panic: "+describe(r.v))
		case unsupported:
			end = pathEnd{kind: "unsupported", msg: r.msg + m.where()}
		default:
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "engine: %v%s\n%s\n", r, m.where(), debug.Stack())
			}
			end = pathEnd{kind: "unsupported", msg: fmt.Sprintf("engine: %v%s", r, m.where())}
		}
	}()
	m.call(fn, nil, nil, nil, nil)
	end = pathEnd{kind: "ok"}
	if m.unknown > 0 {
		m.unknown = 0
	}
	ex.sample(m)
	return end
}

func (ex *Explorer) endViolation(m *Machine, kind, msg string) {
	defer func() {
		recover()
	}()
	m.spec = 0
	m.needModel()
	mm := m.model
	if g := m.gridModel(m.pc); g != nil {
		mm = g
	}
	ex.violation(&Violation{Msg: msg, Kind: kind, Vals: m.ndJSON(mm)})
}

// fallback keeps the inputs of a path that could not be finished: they are
// run natively, so that the path is at least tested.
func (ex *Explorer) fallback(m *Machine, key string) {
	ex.mu.Lock()
	n := ex.vkeys["fallback "+key]
	ex.vkeys["fallback "+key]++
	full := n >= 60 || len(ex.res.Fallback) >= 1500
	ex.mu.Unlock()
	if full || m.model == nil {
		return
	}
	v := &Violation{Msg: key, Kind: "fallback", Vals: m.ndJSON(m.model)}
	ex.mu.Lock()
	ex.res.Fallback = append(ex.res.Fallback, v)
	ex.mu.Unlock()
}

// knownDone tells whether a known deviation was reported often enough.
func (ex *Explorer) knownDone(key string) bool {
	if len(key) > 80 {
		key = key[:80]
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	lim := 2
	if strings.HasPrefix(key, "suspect") {
		lim = 4
	}
	return ex.vkeys[key] >= lim
}

func (ex *Explorer) violation(v *Violation) {
	key := v.Kind + v.Known + v.Msg
	if len(key) > 80 {
		key = key[:80]
	}
	ex.mu.Lock()
	n := ex.vkeys[key]
	ex.vkeys[key]++
	lim := 8
	switch v.Kind {
	case "known":
		lim = 2
	case "suspect":
		lim = 4
	}
	if n >= lim || ex.stop {
		ex.mu.Unlock()
		return
	}
	ex.res.Viols = append(ex.res.Viols, v)
	ex.mu.Unlock()
	if ex.onViol != nil && ex.onViol(v) {
		ex.mu.Lock()
		ex.stop = true
		ex.cond.Broadcast()
		ex.mu.Unlock()
	}
}

func (ex *Explorer) sample(m *Machine) {
	if ex.nSamp == 0 {
		return
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|", ex.seed, ex.spec.Harness)
	for _, d := range m.dec {
		h.Write([]byte{byte(d.Alt), byte(d.Alt >> 8)})
	}
	key := h.Sum64()
	ex.mu.Lock()
	full := len(ex.res.Samples) >= ex.nSamp
	worst := 0
	if full {
		for i, s := range ex.res.Samples {
			if s.Key > ex.res.Samples[worst].Key {
				worst = i
			}
		}
		if ex.res.Samples[worst].Key <= key {
			ex.mu.Unlock()
			return
		}
	}
	ex.mu.Unlock()
	m.needModel()
	mm := m.model
	if g := m.gridModel(m.pc); g != nil {
		mm = g
	}
	{
		e := evaluator{m: mm, memo: map[int32]ev{}}
		for _, t := range m.pc {
			if e.eval(t).u != 1 {
				fmt.Fprintf(os.Stderr, "engine: model does not satisfy the path condition (same model %v)\n", mm == m.model)
				e2 := evaluator{m: m.model, memo: map[int32]ev{}}
				fmt.Fprintf(os.Stderr, "   under path model: %v; %s; dec %v\n", e2.eval(t).u, m.ndJSON(mm), m.dec)
				break
			}
		}
	}
	s := &Sample{Key: key, Vals: m.ndJSON(mm)}
	for _, o := range m.obs {
		str := ""
		for i, v := range o.Vals {
			if i > 0 {
				str += "\x1f"
			}
			str += evalVal(mm, v)
		}
		s.Obs = append(s.Obs, str)
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if len(ex.res.Samples) < ex.nSamp {
		ex.res.Samples = append(ex.res.Samples, s)
		return
	}
	worst = 0
	for i, o := range ex.res.Samples {
		if o.Key > ex.res.Samples[worst].Key {
			worst = i
		}
	}
	if ex.res.Samples[worst].Key > key {
		ex.res.Samples[worst] = s
	}
}

// obsEqual compares an observation of the encoding with the native one.
func obsEqual(a, b string) bool {
	if a == b {
		return true
	}
	x, y := strings.FieldsFunc(a, obsSep), strings.FieldsFunc(b, obsSep)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		if !strings.HasPrefix(x[i], "f") || !strings.HasPrefix(y[i], "f") {
			return false
		}
		p, e1 := strconv.ParseFloat(x[i][1:], 64)
		q, e2 := strconv.ParseFloat(y[i][1:], 64)
		if e1 != nil || e2 != nil || math.Abs(p-q) > 1e-6*(1+math.Abs(p)+math.Abs(q)) {
			return false
		}
	}
	return true
}

func obsSep(r rune) bool { return r == '\x1f' || r == ' ' || r == '[' || r == ']' }

func (m *Machine) Init(p *Program) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				err = fmt.Errorf("init: unsupported: %s%s", r.msg, m.where())
			case targetPanic:
				err = fmt.Errorf("init: panic: %s%s", describe(r.v), m.where())
			case pathEnd:
				err = fmt.Errorf("init: %s %s", r.kind, r.msg)
			default:
				panic(r)
			}
		}
	}()
	m.limit = 1 << 40
	m.call(m.fnOf(p.harness.Func("init")), nil, nil, nil, nil)
	m.cur = m.cur[:0]
	m.depth = 0
	m.encFn = map[string]bool{}
	return nil
}

// markShared collects everything reachable from the globals of the module
// under test.
func (m *Machine) markShared() {
	m.shared = map[*Value]bool{}
	m.sharedM = map[*MapV]bool{}
	for g, p := range m.globals {
		if inModule(g) {
			m.markSlot(p, m.shared, m.sharedM)
		}
	}
}

func inModule(g *ssa.Global) bool {
	return g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && !strings.Contains(g.Pkg.Pkg.Path(), "/internal/verif")
}

func (m *Machine) markSlot(p *Value, to map[*Value]bool, toM map[*MapV]bool) {
	if p == nil || m.shared[p] || to[p] {
		return
	}
	to[p] = true
	m.mark(*p, to, toM)
}

// mark adds what is reachable from a value.
func (m *Machine) mark(v Value, to map[*Value]bool, toM map[*MapV]bool) {
	switch v := v.(type) {
	case *Value:
		m.markSlot(v, to, toM)
	case Struct:
		for i := range v {
			m.markSlot(&v[i], to, toM)
		}
	case Array:
		for i := range v {
			m.markSlot(&v[i], to, toM)
		}
	case Slice:
		f := v[:cap(v)]
		for i := range f {
			m.markSlot(&f[i], to, toM)
		}
	case Iface:
		m.mark(v.v, to, toM)
	case *MapV:
		if v == nil || m.sharedM[v] || toM[v] {
			return
		}
		toM[v] = true
		for _, e := range v.ents {
			m.markSlot(&e.v, to, toM)
			m.mark(e.k, to, toM)
		}
	case *FuncV:
		if v != nil {
			for _, f := range v.free {
				m.mark(f, to, toM)
			}
		}
	}
}

func toJSON(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
