package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	okReg opKind = iota
	okConst
	okGlobal
)

type Opnd struct {
	k opKind
	i int32
	v Value
	g *ssa.Global
}

type Ins struct {
	in     ssa.Instruction
	dst    int32
	a      []Opnd
	n      numInfo // operand type
	n2     numInfo // result type
	t      types.Type
	fn     *Fn // static callee
	iv     bool
	uses   int
	pure   bool
	impure bool
	xuse   [2]bool // for comma-ok tuples: is Extract #0/#1 used
}

type Blk struct {
	b     *ssa.BasicBlock
	idx   int
	ins   []Ins
	phis  []Ins
	preds []*Blk
	succs []*Blk
	pure  bool
	rpo   int
}

type Fn struct {
	f        *ssa.Function
	name     string
	blocks   []*Blk
	nregs    int
	params   []int32
	free     []int32
	model    modelFn
	recover  *Blk
	repo     bool
	pureSt   uint8
	hasDefer bool
	regType  map[int32]types.Type
}

func (fn *Fn) f0() *ssa.Function { return fn.f }

// pureFn reports whether a call of fn can be evaluated speculatively.
func (m *Machine) pureFn(fn *Fn) bool {
	switch fn.pureSt {
	case 1, 3:
		return false
	case 2:
		return true
	}
	fn.pureSt = 1
	if fn.model != nil || fn.f.Blocks == nil || len(fn.f.Blocks) > 24 || fn.f.Recover != nil {
		if fn.model != nil && pureModels[fn.name] {
			fn.pureSt = 2
			return true
		}
		fn.pureSt = 3
		return false
	}
	m.ensure(fn)
	for _, b := range fn.blocks {
		if !b.pure {
			fn.pureSt = 3
			return false
		}
		for i := range b.ins {
			if b.ins[i].impure {
				fn.pureSt = 3
				return false
			}
		}
	}
	fn.pureSt = 2
	return true
}

type modelFn func(m *Machine, args []Value, in *Ins) Value

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (m *Machine) fnOf(f *ssa.Function) *Fn {
	if fn, ok := m.fns[f]; ok {
		return fn
	}
	fn := &Fn{f: f, name: fnName(f)}
	m.fns[f] = fn
	if f.Pkg != nil {
		p := f.Pkg.Pkg.Path()
		fn.repo = strings.HasPrefix(p, modPath) && !strings.HasPrefix(p, modPath+"/internal/verif")
	}
	if f.Synthetic == "package initializer" && !m.p.initOK(f.Pkg.Pkg.Path()) {
		fn.model = func(m *Machine, args []Value, in *Ins) Value { return nil }
		return fn
	}
	if fn.name == "strconv.ParseFloat" {
		// executed, on every text the argument may be
		real := &Fn{f: f, name: fn.name}
		fn.model = func(m *Machine, args []Value, in *Ins) Value {
			if _, ok := args[0].(string); !ok {
				b := strBytes(args[0])
				s := make([]byte, len(b))
				for i := range b {
					s[i] = byte(m.concInt(b[i]))
				}
				args = append([]Value{string(s)}, args[1:]...)
			}
			m.ensure(real)
			return m.call(real, args, nil, nil, in)
		}
		return fn
	}
	if md, ok := models[fn.name]; ok {
		fn.model = md
		return fn
	}
	if sh, ok := shims[fn.name]; ok {
		pkg := m.p.pkgs[modPath+"/internal/verifshim"]
		if pkg == nil {
			panic("no shim package")
		}
		sf := pkg.Func(sh)
		if sf == nil {
			panic("no shim " + sh)
		}
		t := m.fnOf(sf)
		*fn = Fn{f: f, name: fn.name}
		m.ensure(t)
		*fn = *t
		fn.name = sh
		return fn
	}
	return fn
}

// ensure compiles the body of fn.
func (m *Machine) ensure(fn *Fn) {
	if fn.blocks != nil || fn.model != nil {
		return
	}
	f := fn.f
	if f.Blocks == nil {
		unsup("no body: %s", fn.name)
	}
	regs := map[ssa.Value]int32{}
	nr := int32(0)
	fn.regType = map[int32]types.Type{}
	reg := func(v ssa.Value) int32 {
		if r, ok := regs[v]; ok {
			return r
		}
		regs[v] = nr
		fn.regType[nr] = v.Type()
		nr++
		return nr - 1
	}
	for _, p := range f.Params {
		fn.params = append(fn.params, reg(p))
	}
	for _, p := range f.FreeVars {
		fn.free = append(fn.free, reg(p))
	}
	opnd := func(v ssa.Value) Opnd {
		switch v := v.(type) {
		case nil:
			return Opnd{k: okConst}
		case *ssa.Const:
			return Opnd{k: okConst, v: constVal(v)}
		case *ssa.Global:
			return Opnd{k: okGlobal, g: v}
		case *ssa.Function:
			return Opnd{k: okConst, v: &FuncV{fn: m.fnOf(v)}}
		case *ssa.Builtin:
			return Opnd{k: okConst, v: &FuncV{builtin: v}}
		}
		return Opnd{k: okReg, i: reg(v)}
	}
	blks := make([]*Blk, len(f.Blocks))
	for i, b := range f.Blocks {
		blks[i] = &Blk{b: b, idx: i}
	}
	for i, b := range f.Blocks {
		blk := blks[i]
		for _, p := range b.Preds {
			blk.preds = append(blk.preds, blks[p.Index])
		}
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, blks[s.Index])
		}
		blk.pure = true
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			x := Ins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				x.dst = reg(v)
				if v.Type() != nil {
					x.t = v.Type()
					if _, ok := v.Type().(*types.Tuple); !ok {
						x.n2 = numOf(v.Type())
					}
				}
				if rs := v.Referrers(); rs != nil {
					x.uses = len(*rs)
					for _, r := range *rs {
						if e, ok := r.(*ssa.Extract); ok && e.Index < 2 && e.Referrers() != nil && len(*e.Referrers()) > 0 {
							x.xuse[e.Index] = true
						}
					}
				}
			}
			switch in := in.(type) {
			case *ssa.Phi:
				for _, e := range in.Edges {
					x.a = append(x.a, opnd(e))
				}
				blk.phis = append(blk.phis, x)
				continue
			case ssa.CallInstruction:
				c := in.Common()
				if c.IsInvoke() {
					x.iv = true
					x.a = append(x.a, opnd(c.Value))
				} else {
					x.a = append(x.a, opnd(c.Value))
					if sf := c.StaticCallee(); sf != nil {
						if _, ok := c.Value.(*ssa.Function); ok {
							x.fn = m.fnOf(sf)
						}
					}
				}
				for _, a := range c.Args {
					x.a = append(x.a, opnd(a))
				}
			case *ssa.MakeClosure:
				x.fn = m.fnOf(in.Fn.(*ssa.Function))
				for _, b := range in.Bindings {
					x.a = append(x.a, opnd(b))
				}
			default:
				for _, p := range in.Operands(nil) {
					if *p == nil {
						x.a = append(x.a, Opnd{k: okConst})
						continue
					}
					x.a = append(x.a, opnd(*p))
				}
			}
			switch in := in.(type) {
			case *ssa.BinOp:
				x.n = numOf(in.X.Type())
				x.t = in.X.Type()
			case *ssa.UnOp:
				x.n = numOf(in.X.Type())
			case *ssa.Convert:
				x.n = numOf(in.X.Type())
			case *ssa.IndexAddr:
				x.n = numOf(in.Index.Type())
			case *ssa.Index:
				x.n = numOf(in.Index.Type())
			case *ssa.Lookup:
				x.n = numOf(in.Index.Type())
			}
			if _, ok := in.(*ssa.Defer); ok {
				fn.hasDefer = true
			}
			x.pure = m.pureIns(&x)
			if !x.pure {
				blk.pure = false
			}
			blk.ins = append(blk.ins, x)
		}
	}
	fn.nregs = int(nr)
	if f.Recover != nil {
		fn.recover = blks[f.Recover.Index]
	}
	rpo(blks)
	fn.blocks = blks
}

// pureIns reports whether an instruction can be evaluated speculatively.
func (m *Machine) pureIns(x *Ins) bool {
	switch in := x.in.(type) {
	case *ssa.BinOp:
		switch in.Op.String() {
		case "/":
			return x.n.kind == nkFloat
		case "%":
			return false
		case "<<", ">>":
			return true
		}
		if x.n.kind == nkNone {
			switch x.t.Underlying().(type) {
			case *types.Pointer, *types.Signature, *types.Map, *types.Slice:
				return true
			}
			return false
		}
		return x.n.kind != nkComplex
	case *ssa.UnOp:
		switch in.Op.String() {
		case "!", "-", "^", "*":
			return true
		}
		return false
	case *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Slice:
		return true
	case *ssa.Lookup:
		return true
	case *ssa.TypeAssert, *ssa.MakeInterface, *ssa.ChangeInterface:
		return true
	case *ssa.Convert:
		return x.n.kind == nkInt && x.n2.kind == nkInt || x.n.kind == nkInt && x.n2.kind == nkFloat
	case *ssa.ChangeType:
		return true
	case *ssa.Extract:
		return true
	case *ssa.Return:
		return true
	case *ssa.If, *ssa.Jump:
		return true
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return true
		}
		if x.fn != nil && m.pureFn(x.fn) {
			return true
		}
	}
	return false
}

// rpo numbers the blocks in reverse post-order.
func rpo(blks []*Blk) {
	seen := make([]bool, len(blks))
	n := len(blks)
	var visit func(b *Blk)
	visit = func(b *Blk) {
		seen[b.idx] = true
		for i := len(b.succs) - 1; i >= 0; i-- {
			if s := b.succs[i]; !seen[s.idx] {
				visit(s)
			}
		}
		b.rpo = n
		n--
	}
	visit(blks[0])
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		if c.Type() == nil {
			return nil
		}
		if b, ok := c.Type().(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return nil
		}
		if _, ok := c.Type().Underlying().(*types.TypeParam); ok {
			return nil
		}
		return zeroOf(c.Type())
	}
	t := c.Type()
	n := numOf(t)
	switch n.kind {
	case nkBool:
		return constant.BoolVal(c.Value)
	case nkInt:
		if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return norm(uint64(v), n)
		}
		v, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return norm(v, n)
	case nkFloat:
		f := c.Float64()
		if n.w == 32 {
			f = float64(float32(f))
		}
		return f
	case nkComplex:
		return c.Complex128()
	case nkString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	if p, ok := t.Underlying().(*types.Basic); ok && p.Kind() == types.UnsafePointer {
		return (*Value)(nil)
	}
	unsup("constant %v", c)
	return nil
}
