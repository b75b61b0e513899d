package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

var ndPkg = modPath + "/internal/verifnd."

// shims are library functions replaced by harness code of the same meaning
// (package internal/verifshim), which is executed symbolically.
var shims = map[string]string{
	"strings.Index":                        "Index",
	"strings.Count":                        "Count",
	"strings.IndexByte":                    "IndexByte",
	"strings.LastIndexByte":                "LastIndexByte",
	"bytes.Index":                          "BIndex",
	"bytes.IndexByte":                      "BIndexByte",
	"image/png.Encode":                     "PNG",
	"errors.Is":                            "ErrorsIs",
	"sort.Strings":                         "SortStrings",
	"internal/bytealg.CountString":         "CountByte",
	"internal/bytealg.IndexByteString":     "IndexByte",
	"internal/bytealg.IndexByte":           "BIndexByte",
	"internal/bytealg.IndexString":         "Index",
	"internal/bytealg.Index":               "BIndex",
	"internal/bytealg.LastIndexByteString": "LastIndexByte",
	"strings.IndexRune":                    "IndexRune",
}

var pureModels = map[string]bool{
	"math.Max": true, "math.Min": true, "math.Abs": true, "math.IsInf": true, "math.IsNaN": true,
	"math.Floor": true, "math.Ceil": true, "math.Inf": true,
	"unicode.IsLetter": true, "unicode.IsDigit": true, "unicode.IsSpace": true, "unicode.IsUpper": true,
	"unicode.IsLower": true, "unicode.IsNumber": true, "unicode.IsPunct": true, "unicode.IsPrint": true, "unicode.IsGraphic": true,
	"unicode.IsControl": true, "unicode.IsSymbol": true,
}

var models map[string]modelFn

func init() {
	models = map[string]modelFn{}
	mm := models
	nd := func(name string, f modelFn) { mm[ndPkg+name] = f }

	nd("Byte", func(m *Machine, a []Value, _ *Ins) Value {
		lo, hi := a[0].(int64), a[1].(int64)
		t := m.ctx.VarBV(fmt.Sprintf("b%d_%d_%d", len(m.nds), lo, hi), 8, uint64(lo), uint64(hi))
		return m.record(t, "b")
	})
	nd("Rune", func(m *Machine, a []Value, _ *Ins) Value {
		lo, hi := a[0].(int64), a[1].(int64)
		t := m.ctx.VarBV(fmt.Sprintf("r%d_%d_%d", len(m.nds), lo, hi), 32, uint64(lo), uint64(hi))
		return m.record(t, "r")
	})
	nd("Bits", func(m *Machine, a []Value, _ *Ins) Value {
		t := m.ctx.newVar(fmt.Sprintf("w%d", len(m.nds)), SBV, 64)
		return m.record(t, "w")
	})
	nd("Bool", func(m *Machine, a []Value, _ *Ins) Value {
		t := m.ctx.newVar(fmt.Sprintf("t%d", len(m.nds)), SBool, 0)
		return m.record(t, "t")
	})
	nd("Float", func(m *Machine, a []Value, _ *Ins) Value {
		lo, hi := a[0].(float64), a[1].(float64)
		if lo == hi {
			return m.record(lo, "f")
		}
		t := m.ctx.VarReal(fmt.Sprintf("f%d_%v_%v", len(m.nds), lo, hi), lo, hi, 6)
		return m.record(t, "f")
	})
	nd("Int", func(m *Machine, a []Value, _ *Ins) Value {
		lo, hi := a[0].(int64), a[1].(int64)
		if lo == hi {
			return m.record(lo, "i")
		}
		t := m.ctx.VarInt(fmt.Sprintf("i%d_%d_%d", len(m.nds), lo, hi), lo, hi)
		return m.record(t, "i")
	})
	nd("Choose", func(m *Machine, a []Value, _ *Ins) Value {
		n := int(a[0].(int64))
		i := m.choose(n)
		return m.record(int64(i), "c")
	})
	nd("Assume", func(m *Machine, a []Value, _ *Ins) Value {
		m.noSpec()
		m.assume(m.boolT(a[0]))
		return nil
	})
	nd("Assert", func(m *Machine, a []Value, _ *Ins) Value {
		m.noSpec()
		m.assert(m.boolT(a[0]), "assert", "", m.msg(a[1]))
		return nil
	})
	nd("AssertKnown", func(m *Machine, a []Value, _ *Ins) Value {
		m.noSpec()
		id, c, q := a[0].(string), m.boolT(a[1]), m.boolT(a[2])
		m.assert(m.ctx.Or(c, q), "assert", "", m.msg(a[3]))
		m.assert(c, "known", id, m.msg(a[3]))
		return nil
	})
	nd("Suspect", func(m *Machine, a []Value, _ *Ins) Value {
		m.noSpec()
		w := a[0].(string)
		m.assert(m.ctx.Bool(w == ""), "suspect", w, m.msg(a[1])+": "+w)
		return nil
	})
	nd("FEq", func(m *Machine, a []Value, _ *Ins) Value {
		return m.eqv(a[0], a[1])
	})
	nd("FNear", func(m *Machine, a []Value, _ *Ins) Value {
		if v, ok := m.near(a[0], a[1]); ok {
			return v
		}
		return m.eqv(a[0], a[1])
	})
	nd("FLe", func(m *Machine, a []Value, in *Ins) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return x <= y
		}
		if ok1 && math.IsInf(x, 0) {
			return x < 0
		}
		if ok2 && math.IsInf(y, 0) {
			return y > 0
		}
		return m.boolV(m.ctx.ALe(m.toReal(a[0]), m.toReal(a[1])))
	})
	nd("Observe", func(m *Machine, a []Value, _ *Ins) Value {
		s := a[0].(Slice)
		vs := make([]Value, len(s))
		for i := range s {
			vs[i] = copyVal(s[i])
		}
		m.obs = append(m.obs, Obs{vs})
		return nil
	})
	nd("Reach", func(m *Machine, a []Value, _ *Ins) Value {
		if m.reach != nil {
			m.reach[a[0].(string)] = true
		}
		return nil
	})
	nd("Param", func(m *Machine, a []Value, _ *Ins) Value {
		v, ok := m.params[a[0].(string)]
		if !ok {
			fmt.Fprintln(os.Stderr, "no parameter", a[0].(string))
			os.Exit(2)
		}
		return int64(v)
	})
	nd("And", func(m *Machine, a []Value, _ *Ins) Value { return m.andV(a[0], a[1]) })
	nd("Or", func(m *Machine, a []Value, _ *Ins) Value {
		return m.notV(m.andV(m.notV(a[0]), m.notV(a[1])))
	})
	nd("Implies", func(m *Machine, a []Value, _ *Ins) Value {
		return m.notV(m.andV(a[0], m.notV(a[1])))
	})
	nd("ByteIn", func(m *Machine, a []Value, _ *Ins) Value {
		// an unconstrained member of a set of bytes
		m.noSpec()
		set := a[0].(string)
		lo, hi := byte(255), byte(0)
		for i := 0; i < len(set); i++ {
			lo, hi = min(lo, set[i]), max(hi, set[i])
		}
		t := m.ctx.VarBV(fmt.Sprintf("s%d_%q", len(m.nds), set), 8, uint64(lo), uint64(hi))
		r := m.record(t, "b")
		var in [256]bool
		for i := 0; i < len(set); i++ {
			in[set[i]] = true
		}
		var cs []*Term
		for i := int(lo); i <= int(hi); i++ {
			if !in[i] {
				continue
			}
			j := i
			for j+1 <= int(hi) && in[j+1] {
				j++
			}
			cs = append(cs, m.inRange(t, uint64(i), uint64(j)))
			i = j
		}
		m.assume(m.ctx.OrN(cs))
		return r
	})
	nd("SetWatch", func(m *Machine, a []Value, _ *Ins) Value {
		m.watch = a[0].(bool)
		return nil
	})
	nd("SetMapOrder", func(m *Machine, a []Value, _ *Ins) Value {
		m.noSpec()
		m.backwards = a[0].(bool)
		return nil
	})
	nd("Stress", func(m *Machine, a []Value, _ *Ins) Value { return nil })
	nd("SharedWrites", func(m *Machine, a []Value, _ *Ins) Value {
		var ks []string
		for k := range m.writes {
			ks = append(ks, k)
		}
		seen := map[string]bool{}
		for p, where := range m.lockW {
			if m.openR[p] && !seen[where] {
				seen[where] = true
				ks = append(ks, where+" (read without its lock)")
			}
		}
		for p, where := range m.lockWM {
			if m.openRM[p] && !seen[where+" map"] {
				seen[where+" map"] = true
				ks = append(ks, where+" (map, read without its lock)")
			}
		}
		sort.Strings(ks)
		return strings.Join(ks, "; ")
	})

	// ---- math
	f1 := func(name string, conc func(float64) float64, sym func(m *Machine, t *Term) *Term) {
		mm["math."+name] = func(m *Machine, a []Value, _ *Ins) Value {
			if f, ok := a[0].(float64); ok {
				return conc(f)
			}
			if sym == nil {
				unsup("math.%s of a symbolic value", name)
			}
			return m.wrap(sym(m, a[0].(*Term)), numInfo{nkFloat, 64, true})
		}
	}
	f1("Floor", math.Floor, func(m *Machine, t *Term) *Term { return m.ctx.ToReal(m.ctx.Floor(t)) })
	f1("Ceil", math.Ceil, func(m *Machine, t *Term) *Term {
		return m.ctx.ANeg(m.ctx.ToReal(m.ctx.Floor(m.ctx.ANeg(t))))
	})
	f1("Trunc", math.Trunc, func(m *Machine, t *Term) *Term {
		c := m.ctx
		return c.Ite(c.ALe(c.Real(0), t), c.ToReal(c.Floor(t)), c.ANeg(c.ToReal(c.Floor(c.ANeg(t)))))
	})
	f1("Round", math.Round, func(m *Machine, t *Term) *Term {
		c := m.ctx
		h := c.Real(0.5)
		return c.Ite(c.ALe(c.Real(0), t), c.ToReal(c.Floor(c.AOp(OAAdd, t, h))),
			c.ANeg(c.ToReal(c.Floor(c.AOp(OAAdd, c.ANeg(t), h)))))
	})
	f1("Abs", math.Abs, func(m *Machine, t *Term) *Term {
		c := m.ctx
		return c.Ite(c.ALe(c.Real(0), t), t, c.ANeg(t))
	})
	f1("Sqrt", math.Sqrt, nil)
	f1("Log", math.Log, nil)
	f1("Log2", math.Log2, nil)
	f1("Log10", math.Log10, nil)
	f1("Exp", math.Exp, nil)
	f1("Sin", math.Sin, nil)
	f1("Cos", math.Cos, nil)
	f1("Tan", math.Tan, nil)
	f1("Atan", math.Atan, nil)
	f2 := func(name string, conc func(a, b float64) float64, sym func(m *Machine, x, y Value) Value) {
		mm["math."+name] = func(m *Machine, a []Value, _ *Ins) Value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				return conc(x, y)
			}
			if sym == nil {
				unsup("math.%s of a symbolic value", name)
			}
			return sym(m, a[0], a[1])
		}
	}
	maxmin := func(isMax bool) func(m *Machine, x, y Value) Value {
		return func(m *Machine, x, y Value) Value {
			if _, ok := x.(float64); ok {
				x, y = y, x
			}
			if f, ok := y.(float64); ok {
				switch {
				case math.IsNaN(f):
					return f
				case math.IsInf(f, 1):
					if isMax {
						return f
					}
					return x
				case math.IsInf(f, -1):
					if isMax {
						return x
					}
					return f
				}
			}
			a, b := m.toReal(x), m.toReal(y)
			le := m.ctx.ALe(a, b)
			if isMax {
				return m.wrap(m.ctx.Ite(le, b, a), numInfo{nkFloat, 64, true})
			}
			return m.wrap(m.ctx.Ite(le, a, b), numInfo{nkFloat, 64, true})
		}
	}
	f2("Max", math.Max, maxmin(true))
	f2("Min", math.Min, maxmin(false))
	f2("Pow", math.Pow, nil)
	f2("Mod", math.Mod, nil)
	f2("Hypot", math.Hypot, nil)
	f2("Atan2", math.Atan2, nil)
	f2("Copysign", math.Copysign, nil)
	mm["math.Inf"] = func(m *Machine, a []Value, _ *Ins) Value { return math.Inf(int(m.concInt(a[0]))) }
	mm["math.NaN"] = func(m *Machine, a []Value, _ *Ins) Value { return math.NaN() }
	mm["math.IsNaN"] = func(m *Machine, a []Value, _ *Ins) Value {
		f, ok := a[0].(float64)
		return ok && math.IsNaN(f)
	}
	mm["math.IsInf"] = func(m *Machine, a []Value, _ *Ins) Value {
		f, ok := a[0].(float64)
		if !ok {
			return false
		}
		return math.IsInf(f, int(m.concInt(a[1])))
	}
	mm["math.Float64bits"] = func(m *Machine, a []Value, _ *Ins) Value {
		f, ok := a[0].(float64)
		if !ok {
			unsup("bits of a symbolic float")
		}
		return int64(math.Float64bits(f))
	}
	mm["math.Float64frombits"] = func(m *Machine, a []Value, _ *Ins) Value {
		f, ok := a[0].(int64)
		if !ok {
			unsup("float from symbolic bits")
		}
		return math.Float64frombits(uint64(f))
	}
	mm["internal/strconv.float64bits"] = mm["math.Float64bits"]
	mm["internal/strconv.float64frombits"] = mm["math.Float64frombits"]
	mm["math.Signbit"] = func(m *Machine, a []Value, _ *Ins) Value {
		if f, ok := a[0].(float64); ok {
			return math.Signbit(f)
		}
		return m.boolV(m.ctx.ALt(a[0].(*Term), m.ctx.Real(0)))
	}
	mm["math.Modf"] = func(m *Machine, a []Value, _ *Ins) Value {
		f, ok := a[0].(float64)
		if !ok {
			unsup("modf")
		}
		i, fr := math.Modf(f)
		return Tuple{i, fr}
	}

	// ---- unicode
	uni := func(name string, f func(rune) bool) {
		var (
			once   sync.Once
			ranges [][2]uint64
		)
		mm["unicode."+name] = func(m *Machine, a []Value, _ *Ins) Value {
			if r, ok := a[0].(int64); ok {
				return f(rune(r))
			}
			t := a[0].(*Term)
			once.Do(func() { ranges = runeRanges(f) })
			var cs []*Term
			if nonneg(t) || true {
				for _, r := range ranges {
					if r[1] < t.umin || r[0] > t.umax {
						continue
					}
					cs = append(cs, m.inRange(t, r[0], r[1]))
				}
			}
			return m.boolV(m.ctx.OrN(cs))
		}
	}
	for name, t := range unicode.Categories {
		uni("Is:"+name, func(r rune) bool { return unicode.Is(t, r) })
	}
	mm["unicode.Is"] = func(m *Machine, a []Value, in *Ins) Value {
		for g, v := range m.globals {
			if g.Pkg == nil || g.Pkg.Pkg.Path() != "unicode" || *v != a[0] {
				continue
			}
			if f := mm["unicode.Is:"+g.Name()]; f != nil {
				return f(m, a[1:], in)
			}
		}
		unsup("unicode.Is of an unknown table")
		return nil
	}
	uni("IsLetter", unicode.IsLetter)
	uni("IsDigit", unicode.IsDigit)
	uni("IsNumber", unicode.IsNumber)
	uni("IsSpace", unicode.IsSpace)
	uni("IsUpper", unicode.IsUpper)
	uni("IsLower", unicode.IsLower)
	uni("IsPunct", unicode.IsPunct)
	uni("IsPrint", unicode.IsPrint)
	uni("IsGraphic", unicode.IsGraphic)
	uni("IsControl", unicode.IsControl)
	uni("IsSymbol", unicode.IsSymbol)

	mm["strconv.FormatInt"] = func(m *Machine, a []Value, _ *Ins) Value {
		b := m.concInt(a[1])
		if x, ok := a[0].(int64); ok {
			return strconv.FormatInt(x, int(b))
		}
		if b != 10 {
			unsup("FormatInt of a symbolic value, base %d", b)
		}
		return m.decimal(a[0].(*Term))
	}
	mm["strconv.Itoa"] = func(m *Machine, a []Value, _ *Ins) Value {
		if x, ok := a[0].(int64); ok {
			return strconv.Itoa(int(x))
		}
		return m.decimal(a[0].(*Term))
	}

	// ---- fmt, log, os
	mm["fmt.Sprintf"] = func(m *Machine, a []Value, _ *Ins) Value {
		return m.sprintf(a[0], a[1].(Slice))
	}
	mm["fmt.Sprint"] = func(m *Machine, a []Value, _ *Ins) Value {
		return m.sprint(a[0].(Slice), false)
	}
	mm["fmt.Sprintln"] = func(m *Machine, a []Value, _ *Ins) Value {
		return strCat(m.sprint(a[0].(Slice), true), "\n")
	}
	mm["text/scanner.TokenString"] = func(m *Machine, a []Value, in *Ins) Value {
		if t, ok := a[0].(int64); ok && t >= 0 {
			return fmt.Sprintf("%q", string(rune(t)))
		} else if ok {
			return map[int64]string{-1: "EOF", -2: "Ident", -3: "Int", -4: "Float", -5: "Char", -6: "String", -7: "RawString", -8: "Comment"}[t]
		}
		return "?" // the text of an error
	}
	mm["fmt.Errorf"] = func(m *Machine, a []Value, _ *Ins) Value {
		m.lossy++
		defer func() { m.lossy-- }()
		s := m.sprintf(a[0], a[1].(Slice))
		f, _ := a[0].(string)
		if strings.Contains(f, "%w") {
			// which argument
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
					i++
				}
				if i < len(f) && f[i] == '%' {
					continue
				}
				if i < len(f) && f[i] == 'w' {
					break
				}
				n++
			}
			args := a[1].(Slice)
			if n < len(args) {
				t := m.p.pkgs["fmt"].Pkg.Scope().Lookup("wrapError").Type()
				p := new(Value)
				*p = Struct{s, args[n]}
				return Iface{types.NewPointer(t), p}
			}
		}
		return m.newError(s)
	}
	fpr := func(gen func(m *Machine, a []Value) Value) modelFn {
		return func(m *Machine, a []Value, in *Ins) Value {
			s := gen(m, a[1:])
			w := a[0].(Iface)
			if w.t == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			if strings.HasSuffix(w.t.String(), "os.File") {
				return Tuple{int64(strLen(s)), Iface{}}
			}
			b := strBytes(s)
			sl := make(Slice, len(b))
			copy(sl, b)
			fn := m.findMethod(w.t, "Write")
			if fn == nil {
				unsup("no Write on %v", w.t)
			}
			return m.call(fn, []Value{copyVal(w.v), sl}, nil, nil, in)
		}
	}
	mm["fmt.Fprintf"] = fpr(func(m *Machine, a []Value) Value { return m.sprintf(a[0], a[1].(Slice)) })
	mm["fmt.Fprint"] = fpr(func(m *Machine, a []Value) Value { return m.sprint(a[0].(Slice), false) })
	mm["fmt.Fprintln"] = fpr(func(m *Machine, a []Value) Value {
		return strCat(m.sprint(a[0].(Slice), true), "\n")
	})
	drop := func(m *Machine, a []Value, _ *Ins) Value { return Tuple{int64(0), Iface{}} }
	mm["fmt.Printf"], mm["fmt.Println"], mm["fmt.Print"] = drop, drop, drop
	nop := func(m *Machine, a []Value, _ *Ins) Value { return nil }
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "log.SetFlags", "log.SetPrefix",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"(*strings.Builder).copyCheck", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "(*os.File).Sync"} {
		mm[n] = nop
	}
	lock := func(n int) modelFn {
		return func(m *Machine, a []Value, _ *Ins) Value {
			m.noSpec()
			m.locked += n
			return nil
		}
	}
	mm["(*sync.Mutex).Lock"], mm["(*sync.Mutex).Unlock"] = lock(1), lock(-1)
	mm["(*sync.RWMutex).Lock"], mm["(*sync.RWMutex).Unlock"] = lock(1), lock(-1)
	rlock := func(n int) modelFn {
		return func(m *Machine, a []Value, _ *Ins) Value {
			m.noSpec()
			m.rlocked += n
			return nil
		}
	}
	mm["(*sync.RWMutex).RLock"], mm["(*sync.RWMutex).RUnlock"] = rlock(1), rlock(-1)
	mm["(*sync.Mutex).TryLock"] = func(m *Machine, a []Value, _ *Ins) Value {
		m.noSpec()
		m.locked++
		return true
	}
	pan := func(gen func(m *Machine, a []Value) Value) modelFn {
		return func(m *Machine, a []Value, _ *Ins) Value {
			panic(targetPanic{Iface{m.strT, gen(m, a)}})
		}
	}
	mm["log.Panicf"] = pan(func(m *Machine, a []Value) Value { return m.sprintf(a[0], a[1].(Slice)) })
	mm["log.Panic"] = pan(func(m *Machine, a []Value) Value { return m.sprint(a[0].(Slice), false) })
	mm["log.Panicln"] = pan(func(m *Machine, a []Value) Value { return m.sprint(a[0].(Slice), true) })
	exit := func(m *Machine, a []Value, _ *Ins) Value {
		panic(targetPanic{Iface{m.strT, "process exit"}})
	}
	mm["log.Fatalf"], mm["log.Fatal"], mm["os.Exit"] = exit, exit, exit
	mm["(*os.File).Write"] = func(m *Machine, a []Value, _ *Ins) Value {
		return Tuple{int64(len(a[1].(Slice))), Iface{}}
	}
	mm["internal/bytealg.MakeNoZero"] = func(m *Machine, a []Value, _ *Ins) Value {
		n := m.concInt(a[0])
		c := growCap(0, int(n), 1)
		s := make(Slice, c)
		for i := range s {
			s[i] = int64(0)
		}
		return s[:n]
	}
	mm["internal/bytealg.Equal"] = func(m *Machine, a []Value, _ *Ins) Value {
		return m.strEq(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
	}
	mm["bytes.Equal"] = mm["internal/bytealg.Equal"]
	mm["strings.Clone"] = func(m *Machine, a []Value, _ *Ins) Value { return a[0] }
	mm["internal/stringslite.Clone"] = mm["strings.Clone"]
	mm["strings.EqualFold"] = func(m *Machine, a []Value, _ *Ins) Value {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		if !ok1 || !ok2 {
			unsup("EqualFold")
		}
		return strings.EqualFold(x, y)
	}
	mm["strconv.Quote"] = func(m *Machine, a []Value, _ *Ins) Value { return m.quote(a[0]) }
	mm["sort.Slice"] = func(m *Machine, a []Value, in *Ins) Value {
		s := a[0].(Iface).v.(Slice)
		less := a[1]
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !m.truth(m.callV(less, []Value{int64(j), int64(j - 1)}, nil, in)) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				m.store(&s[j], y)
				m.store(&s[j-1], x)
			}
		}
		return nil
	}
	mm["sort.SliceStable"] = mm["sort.Slice"]
	ptr := func(a Value) *Value { return a.(*Value) }
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		mm["sync/atomic.Load"+k] = func(m *Machine, a []Value, _ *Ins) Value { return *ptr(a[0]) }
		mm["sync/atomic.Store"+k] = func(m *Machine, a []Value, _ *Ins) Value { m.setAtomic(ptr(a[0]), a[1]); return nil }
		mm["sync/atomic.Add"+k] = func(m *Machine, a []Value, _ *Ins) Value {
			n := (*ptr(a[0])).(int64) + a[1].(int64)
			m.setAtomic(ptr(a[0]), n)
			return n
		}
		mm["sync/atomic.CompareAndSwap"+k] = func(m *Machine, a []Value, _ *Ins) Value {
			if *ptr(a[0]) == a[1] {
				m.setAtomic(ptr(a[0]), a[2])
				return true
			}
			return false
		}
		mm["sync/atomic.Swap"+k] = func(m *Machine, a []Value, _ *Ins) Value {
			o := *ptr(a[0])
			m.setAtomic(ptr(a[0]), a[1])
			return o
		}
	}
	// atomic.Value and atomic.Pointer hold their value in their last field
	cell := func(a []Value) *Value {
		p := ptr(a[0])
		if p == nil {
			unsup("nil atomic")
		}
		s := (*p).(Struct)
		return &s[len(s)-1]
	}
	isNil := func(v Value) bool {
		switch v := v.(type) {
		case nil:
			return true
		case Iface:
			return v.t == nil
		case *Value:
			return v == nil
		}
		return false
	}
	for _, n := range []string{"(*sync/atomic.Value).", "(*sync/atomic.Pointer[T])."} {
		value := n == "(*sync/atomic.Value)."
		get := func(a []Value) Value {
			v := *cell(a)
			if !value && isNil(v) {
				return (*Value)(nil)
			}
			return v
		}
		chk := func(m *Machine, v Value) {
			if value && isNil(v) {
				panic(targetPanic{Iface{m.strT, "sync/atomic: store of nil value into Value"}})
			}
		}
		mm[n+"Load"] = func(m *Machine, a []Value, _ *Ins) Value { return get(a) }
		mm[n+"Store"] = func(m *Machine, a []Value, _ *Ins) Value {
			chk(m, a[1])
			m.noSpec()
			m.publish(a[1])
			m.setAtomic(cell(a), a[1])
			return nil
		}
		mm[n+"Swap"] = func(m *Machine, a []Value, _ *Ins) Value {
			chk(m, a[1])
			m.noSpec()
			o := get(a)
			m.publish(a[1])
			m.setAtomic(cell(a), a[1])
			return o
		}
		mm[n+"CompareAndSwap"] = func(m *Machine, a []Value, _ *Ins) Value {
			chk(m, a[2])
			m.noSpec()
			o := get(a)
			same := isNil(o) && isNil(a[1])
			if x, ok := o.(*Value); ok && !same {
				y, ok := a[1].(*Value)
				same = ok && x == y
			} else if !same {
				same = m.truth(m.eqv(o, a[1]))
			}
			if same {
				m.publish(a[2])
				m.setAtomic(cell(a), a[2])
			}
			return same
		}
	}
	// a pool gives back what was put last
	mm["(*sync.Pool).Get"] = func(m *Machine, a []Value, in *Ins) Value {
		m.noSpec()
		k := ptr(a[0])
		if p := m.pools[k]; len(p) > 0 {
			v := p[len(p)-1]
			m.pools[k] = p[:len(p)-1]
			return v
		}
		s := (*k).(Struct)
		f := s[len(s)-1].(*FuncV)
		if f == nil {
			return Iface{}
		}
		return m.callV(f, nil, nil, in)
	}
	mm["(*sync.Pool).Put"] = func(m *Machine, a []Value, in *Ins) Value {
		m.noSpec()
		k := ptr(a[0])
		if m.pools == nil {
			m.pools = map[*Value][]Value{}
		}
		m.pools[k] = append(m.pools[k][:len(m.pools[k]):len(m.pools[k])], a[1])
		return nil
	}
	smap := func(m *Machine, a []Value) *MapV {
		k := ptr(a[0])
		if m.syncMaps == nil {
			m.syncMaps = map[*Value]*MapV{}
		}
		if m.syncMaps[k] == nil {
			m.syncMaps[k] = &MapV{idx: map[string]int32{}}
		}
		return m.syncMaps[k]
	}
	anyT := types.NewInterfaceType(nil, nil)
	load := func(m *Machine, mv *MapV, k Value, in *Ins) (Value, bool) {
		v, ok := m.mapGet(mv, k, anyT, true, in)
		return v, m.truth(ok)
	}
	mm["(*sync.Map).Load"] = func(m *Machine, a []Value, in *Ins) Value {
		m.noSpec()
		v, ok := load(m, smap(m, a), a[1], in)
		return Tuple{v, ok}
	}
	mm["(*sync.Map).Store"] = func(m *Machine, a []Value, in *Ins) Value {
		m.noSpec()
		m.publish(a[2])
		m.mapSet(smap(m, a), a[1], a[2])
		return nil
	}
	mm["(*sync.Map).LoadOrStore"] = func(m *Machine, a []Value, in *Ins) Value {
		m.noSpec()
		mv := smap(m, a)
		if v, ok := load(m, mv, a[1], in); ok {
			return Tuple{v, true}
		}
		m.publish(a[2])
		m.mapSet(mv, a[1], a[2])
		return Tuple{a[2], false}
	}
	mm["(*sync.Map).Delete"] = func(m *Machine, a []Value, in *Ins) Value {
		m.noSpec()
		m.mapDelete(smap(m, a), a[1])
		return nil
	}
}

// publish notes that others reach what v refers to.
func (m *Machine) publish(v Value) {
	if m.racing {
		m.mark(v, m.dyn, m.dynM)
	}
}

func (m *Machine) setAtomic(p *Value, v Value) {
	w := m.watch
	m.watch = false
	m.set(p, v)
	m.watch = w
}

func (m *Machine) noSpec() {
	if m.spec > 0 {
		panic(specAbort{})
	}
}

func runeRanges(f func(rune) bool) [][2]uint64 {
	var out [][2]uint64
	for r := rune(0); r <= 0x10FFFF; r++ {
		if !f(r) {
			continue
		}
		s := r
		for r+1 <= 0x10FFFF && f(r+1) {
			r++
		}
		out = append(out, [2]uint64{uint64(s), uint64(r)})
	}
	return out
}

func (m *Machine) record(v Value, kind string) Value {
	m.noSpec()
	m.nds = append(m.nds, NDVal{V: v, T: kind})
	if t, ok := v.(*Term); ok && m.pending != nil && m.model != nil {
		if u, ok := m.pending.bv[t.name]; ok {
			m.model.bv[t.id] = u
		}
		if r, ok := m.pending.num[t.name]; ok {
			m.model.num[t.id] = r
		}
	}
	return v
}

func (m *Machine) msg(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return describe(v)
}

func (m *Machine) newError(s Value) Value {
	t := m.p.pkgs["errors"].Pkg.Scope().Lookup("errorString").Type()
	p := new(Value)
	*p = Struct{s}
	return Iface{types.NewPointer(t), p}
}

// ---- formatting

func (m *Machine) sprint(args Slice, ln bool) Value {
	var out Value = ""
	for i, a := range args {
		if i > 0 && ln {
			out = strCat(out, " ")
		} else if i > 0 {
			_, s1 := a.(Iface).v.(string)
			_, s2 := args[i-1].(Iface).v.(string)
			if !s1 && !s2 {
				out = strCat(out, " ")
			}
		}
		out = strCat(out, m.fmtArg('v', "", a.(Iface)))
	}
	return out
}

func (m *Machine) sprintf(fv Value, args Slice) Value {
	f, ok := fv.(string)
	if !ok {
		unsup("symbolic format string")
	}
	var out Value = ""
	n := 0
	for i := 0; i < len(f); {
		j := i
		for j < len(f) && f[j] != '%' {
			j++
		}
		out = strCat(out, f[i:j])
		if j >= len(f) {
			break
		}
		i = j + 1
		k := i
		for k < len(f) && strings.IndexByte("+-# 0123456789.*", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			out = strCat(out, "%!(NOVERB)")
			break
		}
		flags := f[i:k]
		verb := f[k]
		i = k + 1
		if verb == '%' {
			out = strCat(out, "%")
			continue
		}
		if strings.Contains(flags, "*") {
			unsup("* in format")
		}
		if n >= len(args) {
			out = strCat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		out = strCat(out, m.fmtArg(verb, flags, args[n].(Iface)))
		n++
	}
	if n < len(args) {
		out = strCat(out, "%!(EXTRA ...)")
	}
	return out
}

func (m *Machine) fmtArg(verb byte, flags string, a Iface) Value {
	switch verb {
	case 'T':
		if a.t == nil {
			return "<nil>"
		}
		return types.TypeString(a.t, func(p *types.Package) string { return p.Name() })
	case 'p':
		return "0xc000000000"
	}
	if a.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return "%!s(<nil>)"
			}
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		for _, name := range []string{"Error", "String"} {
			if fn := m.findMethod(a.t, name); fn != nil {
				sig := fn.f0().Signature
				if sig.Params().Len() == 0 && sig.Results().Len() == 1 && numOf(sig.Results().At(0).Type()).kind == nkString {
					if p, ok := a.v.(*Value); ok && p == nil {
						return "<nil>"
					}
					s := m.call(fn, []Value{copyVal(a.v)}, nil, nil, nil)
					if verb == 'q' {
						return m.quote(s)
					}
					return m.pad(s, flags)
				}
			}
		}
	}
	return m.pad(m.fmtVal(verb, flags, a.v, a.t), flags)
}

func (m *Machine) pad(s Value, flags string) Value {
	w := strings.TrimLeft(flags, "+-# 0")
	if i := strings.IndexByte(w, '.'); i >= 0 {
		w = w[:i]
	}
	n, _ := strconv.Atoi(w)
	if k := strLen(s); k < n {
		if strings.Contains(flags, "-") {
			return strCat(s, strings.Repeat(" ", n-k))
		}
		return strCat(strings.Repeat(" ", n-k), s)
	}
	return s
}

func (m *Machine) fmtVal(verb byte, flags string, v Value, t types.Type) Value {
	n := numOf(t)
	switch x := v.(type) {
	case bool:
		return strconv.FormatBool(x)
	case int64:
		switch verb {
		case 'c':
			return string(rune(x))
		case 'q':
			return strconv.QuoteRune(rune(x))
		case 'U':
			return fmt.Sprintf("%U", x)
		case 'x', 'X', 'o', 'b':
			return fmt.Sprintf("%"+flags+string(verb), x)
		case 'd', 'v':
			if !n.signed {
				return strconv.FormatUint(uint64(x), 10)
			}
			if f := strings.TrimLeft(flags, "0123456789"); f == "" {
				return fmt.Sprintf("%"+flags+"d", x)
			}
			return strconv.FormatInt(x, 10)
		}
		return fmt.Sprintf("%!%c(%v=%d)", verb, t, x)
	case float64:
		fl := flags
		if verb == 'v' {
			verb = 'g'
		}
		return fmt.Sprintf("%"+fl+string(verb), x)
	case string:
		switch verb {
		case 'q':
			return strconv.Quote(x)
		case 'v', 's', 'w':
			return x
		case 'x':
			return fmt.Sprintf("%x", x)
		}
		return fmt.Sprintf("%!%c(string=%s)", verb, x)
	case *SymStr:
		if verb == 'q' {
			return m.quote(x)
		}
		return x
	case *Term:
		switch x.sk {
		case SBool:
			if m.branch(x) {
				return "true"
			}
			return "false"
		case SBV, SInt:
			if verb == 'c' || verb == 'q' {
				s := m.runeStr(m.ctx.Resize(x, 32, n.signed))
				if verb == 'q' {
					return strCat("'", strCat(s, "'"))
				}
				return s
			}
			if verb == 'd' || verb == 'v' {
				if x.sk == SInt && x.bnd && x.hi-x.lo <= 16 || x.sk == SBV && x.umax-x.umin <= 16 {
					return strconv.FormatInt(m.concInt(x), 10)
				}
			}
			return "?" // symbolic number in a message
		}
		return "?"
	case Iface:
		if x.t == nil {
			return "<nil>"
		}
		return m.fmtArg(verb, flags, x)
	case *Value:
		if x == nil {
			return "<nil>"
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if _, ok := (*x).(Struct); ok && verb == 'v' {
				return strCat("&", m.fmtVal(verb, flags, *x, pt.Elem()))
			}
		}
		return "0xc000000000"
	case Struct:
		st := t.Underlying().(*types.Struct)
		var out Value = "{"
		for i, f := range x {
			if i > 0 {
				out = strCat(out, " ")
			}
			if strings.Contains(flags, "+") {
				out = strCat(out, st.Field(i).Name()+":")
			}
			out = strCat(out, m.fmtElem(verb, flags, f, st.Field(i).Type()))
		}
		return strCat(out, "}")
	case Slice:
		et := t.Underlying().(*types.Slice).Elem()
		var out Value = "["
		for i, f := range x {
			if i > 0 {
				out = strCat(out, " ")
			}
			out = strCat(out, m.fmtElem(verb, flags, f, et))
		}
		return strCat(out, "]")
	case Array:
		et := t.Underlying().(*types.Array).Elem()
		var out Value = "["
		for i, f := range x {
			if i > 0 {
				out = strCat(out, " ")
			}
			out = strCat(out, m.fmtElem(verb, flags, f, et))
		}
		return strCat(out, "]")
	case *MapV:
		return "map[...]"
	case *FuncV:
		return "0x1"
	}
	return fmt.Sprintf("%v", v)
}

func (m *Machine) fmtElem(verb byte, flags string, v Value, t types.Type) Value {
	if itf, ok := v.(Iface); ok {
		return m.fmtArg(verb, flags, itf)
	}
	return m.fmtArg(verb, flags, Iface{t, v})
}

// quote is strconv.Quote.
func (m *Machine) quote(v Value) Value {
	if s, ok := v.(string); ok {
		return strconv.Quote(s)
	}
	s := v.(*SymStr)
	var out Value = "\""
	c := m.ctx
	for i := 0; i < len(s.b); {
		t, ok := s.b[i].(*Term)
		if !ok {
			b := s.b[i].(int64)
			if b < 0x80 {
				q := strconv.Quote(string(rune(b)))
				out = strCat(out, q[1:len(q)-1])
				i++
				continue
			}
			// a concrete non-ASCII sequence
			j := i
			for j < len(s.b) {
				if x, ok := s.b[j].(int64); ok && x >= 0x80 {
					j++
					continue
				}
				break
			}
			q := strconv.Quote(strSlice(s, i, j).(string))
			out = strCat(out, q[1:len(q)-1])
			i = j
			continue
		}
		k := func(b byte) *Term { return c.BV(uint64(b), 8) }
		plain := c.AndN([]*Term{c.Ule(k(0x20), t), c.Ule(t, k(0x7e)), c.Not(c.Eq(t, k('"'))), c.Not(c.Eq(t, k('\\')))})
		esc := c.Or(c.Eq(t, k('"')), c.Eq(t, k('\\')))
		named := c.And(c.Ule(k(7), t), c.Ule(t, k(13)))
		ctl := c.And(c.Not(named), c.Or(c.Ult(t, k(0x20)), c.Eq(t, k(0x7f))))
		hi := c.Ule(k(0x80), t)
		switch m.decideN([]*Term{plain, esc, named, ctl, hi}) {
		case 0:
			out = strCat(out, mkStr([]Value{t}))
		case 1:
			out = strCat(out, mkStr([]Value{int64('\\'), t}))
		case 2:
			r := k('r')
			for i, ch := range "abtnvf" {
				r = c.Ite(c.Eq(t, k(byte(7+i))), k(byte(ch)), r)
			}
			out = strCat(out, mkStr([]Value{int64('\\'), r}))
		case 3:
			hex := func(d *Term) *Term {
				return c.Ite(c.Ult(d, k(10)), c.BVOp(OAdd, d, k('0')), c.BVOp(OAdd, d, k('a'-10)))
			}
			out = strCat(out, mkStr([]Value{int64('\\'), int64('x'),
				hex(c.BVOp(OLShr, t, k(4))), hex(c.BVOp(OBAnd, t, k(15)))}))
		default:
			if m.lossy > 0 {
				return "?" // the text of an error
			}
			unsup("quote of a symbolic non-ASCII byte")
		}
		i++
	}
	return strCat(out, "\"")
}

// tolerance is what numbers may differ by to be equal up to rounding: the
// symbolic arithmetic is exact, that on constants is not.
const tolerance = 1e-9

// decimal spells an integer: its sign and its number of digits are branched
// on, the digits are terms.
func (m *Machine) decimal(t *Term) Value {
	c := m.ctx
	if t.sk != SInt {
		t = m.bvToInt(t)
	}
	var r []Value
	if m.branch(c.ALt(t, c.IntC(0))) {
		r = append(r, int64('-'))
		t = c.ANeg(t)
	}
	n, p := 1, int64(10)
	for n < 19 && !m.branch(c.ALt(t, c.IntC(p))) {
		n, p = n+1, p*10
	}
	for i := n - 1; i >= 0; i-- {
		pow := new(big.Rat).SetInt64(pow10(i))
		d := m.floorDiv(t, pow)
		if i < n-1 {
			hi := m.floorDiv(t, new(big.Rat).SetInt64(pow10(i+1)))
			d = c.AOp(OASub, d, c.AOp(OAMul, c.IntC(10), hi))
		}
		b := c.BV('0', 8)
		for k := int64(1); k < 10; k++ {
			b = c.Ite(c.Eq(d, c.IntC(k)), c.BV(uint64('0'+k), 8), b)
		}
		if b.isConst() {
			r = append(r, int64(b.u))
			continue
		}
		r = append(r, b)
	}
	return mkStr(r)
}

func pow10(n int) int64 {
	r := int64(1)
	for ; n > 0; n-- {
		r *= 10
	}
	return r
}

func (m *Machine) near(a, b Value) (Value, bool) {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		return x == y || math.Abs(x-y) <= tolerance*(1+math.Max(math.Abs(x), math.Abs(y))), true
	}
	if ok1 && !fin(x) || ok2 && !fin(y) {
		return nil, false
	}
	c := m.ctx
	d := c.AOp(OAAdd, m.toReal(a), c.ANeg(m.toReal(b)))
	if d.op == OConst {
		f, _ := d.rat.Float64()
		return math.Abs(f) <= tolerance, true
	}
	if d.bnd && d.lo >= -tolerance && d.hi <= tolerance {
		return true, true
	}
	return m.boolV(c.And(c.ALe(c.Real(-tolerance), d), c.ALe(d, c.Real(tolerance)))), true
}
