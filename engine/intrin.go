package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

// pureIntr: intrinsics allowed inside speculative (if-converted) execution.
var pureIntr = map[string]bool{}

func lookupIntrinsic(name string) intrinsic { return intrinsics[name] }

func vr(name string) string { return vpath + "vrt." + name }

func (m *M) stub(name string) { m.stubs[name]++ }

// name builds the variable name of a nondet call: "name" or "name#i".
func (m *M) ndName(args []Value) string {
	n := goStr(args[0])
	if len(args) > 1 && args[1].R != nil {
		for _, x := range args[1].R.(*Slice).s {
			n += "#" + strconv.FormatUint(m.concretize(x, 1, "name index"), 10)
		}
	}
	return n
}

func (m *M) ndVar(name string, w uint8) *Term {
	if v, dup := m.path.vars[name]; dup {
		if v != w {
			panic(unsupported("nondet " + name + " used at two widths"))
		}
		return m.tt.Var(name, w)
	}
	if _, dup := m.path.inputs[name]; dup {
		panic(unsupported("nondet " + name + " is also a choice"))
	}
	m.path.vars[name] = w
	return m.tt.Var(name, w)
}

func nestedRun(m *M, f *ssa.Function, args []Value, bind []Value) Value {
	old, oldMulti := m.cur, m.multi
	g := &G{id: old.id, vc: old.vc, name: "init"}
	m.multi = false
	m.cur = g
	var res Value
	fr := m.pushFrame(g, m.compile(f), args, bind, -1)
	fr.onRet = func(m *M, v Value) { res = v }
	for !g.done {
		m.runInner(g)
		if g.cond != nil {
			panic(unsupported("blocking operation in package initialisation"))
		}
	}
	m.cur, m.multi = old, oldMulti
	return res
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "syscall", "reflect", "time", "os", "sync", "sync/atomic", "unsafe", "internal/reflectlite":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/")
}

func (m *M) needInit(g *ssa.Global) {
	path := g.Pkg.Pkg.Path()
	if m.inited[path] {
		return
	}
	if path == "unicode" {
		panic(unsupported("unicode tables"))
	}
	if skipInit(path) {
		m.inited[path] = true
		return
	}
	if m.spec != nil {
		panic(specAbort{"init"})
	}
	m.inited[path] = true
	g.Pkg.Build()
	f := g.Pkg.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	nestedRun(m, f, nil, nil)
}

func reg(name string, f intrinsic)  { intrinsics[name] = f }
func regP(name string, f intrinsic) { intrinsics[name] = f; pureIntr[name] = true }

func nop(m *M, fr *Frame, in *Instr, a []Value) Value { return Value{} }

func boolOf(m *M, v Value) *Term { return m.term(v, 0) }

func init() {
	// ---- harness interface ----
	for _, x := range []struct {
		n string
		w uint8
	}{{"U64", 64}, {"I64", 64}, {"U32", 32}, {"U16", 16}, {"U8", 8}, {"Bool", 0}} {
		x := x
		reg(vr(x.n), func(m *M, fr *Frame, in *Instr, a []Value) Value {
			return fromTerm(m.ndVar(m.ndName(a), x.w))
		})
	}
	reg(vr("Range"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		n := goStr(a[0])
		lo, hi := int64(a[1].N), int64(a[2].N)
		v := m.ndVar(n, 64)
		if _, ok := m.path.model[n]; !ok {
			m.path.setModel(Model{n: uint64(lo)})
		}
		if lo > hi {
			panic(pathEnd{"assume", ""})
		}
		m.assume(m.tt.BAnd(m.tt.Sle(m.tt.Const(64, uint64(lo)), v), m.tt.Sle(v, m.tt.Const(64, uint64(hi)))))
		return fromTerm(v)
	})
	reg(vr("Choose"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		n := goStr(a[0])
		if _, dup := m.path.inputs[n]; dup {
			panic(unsupported("choice " + n + " drawn twice"))
		}
		if _, dup := m.path.vars[n]; dup {
			panic(unsupported("choice " + n + " is also a nondet"))
		}
		c := m.chooseN(int(a[1].N), n)
		m.path.inputs[n] = uint64(c)
		return conc(uint64(c))
	})
	reg(vr("Concrete"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		return conc(m.concretize(a[0], 4096, "harness value"))
	})
	reg(vr("ConcreteInt"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		return conc(m.concretize(a[0], 4096, "harness value"))
	})
	reg(vr("Assume"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		m.assume(boolOf(m, a[0]))
		return Value{}
	})
	reg(vr("Assert"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		m.assertTerm(boolOf(m, a[0]), goStr(a[1]))
		return Value{}
	})
	reg(vr("Cover"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		m.path.covers = append(m.path.covers, goStr(a[0]))
		return Value{}
	})
	reg(vr("Observe"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		o := obsRec{name: goStr(a[0])}
		if t, ok := a[1].R.(*Term); ok {
			o.t = t
		} else {
			o.c = a[1].N
		}
		m.path.obs = append(m.path.obs, o)
		return Value{}
	})
	reg(vr("ObserveS"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		if s, ok := a[1].R.(*SymStr); ok {
			_ = s
			return Value{}
		}
		m.path.obs = append(m.path.obs, obsRec{s: goStr(a[0]) + "=" + goStr(a[1])})
		return Value{}
	})
	reg(vr("Thorough"), func(m *M, fr *Frame, in *Instr, a []Value) Value { return boolV(m.x.thorough) })
	reg(vr("Native"), func(m *M, fr *Frame, in *Instr, a []Value) Value { return boolV(false) })
	reg(vr("AllocLimit"), func(m *M, fr *Frame, in *Instr, a []Value) Value { m.allocLimit = a[0].N; return Value{} })
	reg(vr("StepLimit"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		m.maxSteps, m.hangIs = m.steps+int64(a[0].N), goStr(a[1])
		if a[0].N == 0 {
			m.maxSteps, m.hangIs = 0, ""
		}
		return Value{}
	})
	reg(vr("Preempt"), func(m *M, fr *Frame, in *Instr, a []Value) Value { m.delays = int(int64(a[0].N)); return Value{} })
	reg(vr("SetProcs"), func(m *M, fr *Frame, in *Instr, a []Value) Value { m.procs = int(a[0].N); return Value{} })
	reg(vr("MergeOff"), func(m *M, fr *Frame, in *Instr, a []Value) Value { m.mergeOff = a[0].N == 1; return Value{} })
	reg(vr("Yield"), nop)
	regP(vr("And"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		return fromTerm(m.tt.BAnd(boolOf(m, a[0]), boolOf(m, a[1])))
	})
	regP(vr("Or"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		return fromTerm(m.tt.BOr(boolOf(m, a[0]), boolOf(m, a[1])))
	})
	regP(vr("IteU"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		return fromTerm(m.tt.Ite(boolOf(m, a[0]), m.term(a[1], 64), m.term(a[2], 64)))
	})
	regP(vr("IteI"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		return fromTerm(m.tt.Ite(boolOf(m, a[0]), m.term(a[1], 64), m.term(a[2], 64)))
	})
	regP(vr("B2I"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		return fromTerm(m.tt.Ite(boolOf(m, a[0]), m.tt.Const(64, 1), m.tt.Const(64, 0)))
	})
	regP(vr("SameFloat"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		return fromTerm(m.tt.F2(OpFSame, m.term(a[0], sortFP), m.term(a[1], sortFP)))
	})
	// Known reports whether a condition is decided on this path without forking.
	reg(vr("Known"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		_, k := m.known(boolOf(m, a[0]))
		return boolV(k)
	})
	reg(vr("IsConcrete"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		_, isT := a[0].R.(*Term)
		return boolV(!isT)
	})
	reg(vr("Exit"), func(m *M, fr *Frame, in *Instr, a []Value) Value { panic(exitPanic{a[0]}) })
	reg(vr("RunExit"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		cl := a[0].R.(*Closure)
		dst := in.dst
		fr.pc++
		if m.exitCatch != nil {
			panic(unsupported("nested RunExit"))
		}
		m.exitCatch = &exitCatch{fr, dst}
		n := m.pushFrame(m.cur, m.compile(cl.fn), nil, cl.bind, -1)
		n.onRet = func(m *M, v Value) {
			m.exitCatch = nil
			fr.regs[dst] = conc(^uint64(0))
		}
		return Value{}
	})
	reg(vr("Lines"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		var r, cur []Value
		for _, b := range strBytes(a[0]) {
			if _, ok := b.R.(*Tok); !ok && m.decide(m.tt.Eq(m.term(b, 8), m.tt.Const(8, '\n'))) {
				r, cur = append(r, symStr(cur)), nil
				continue
			}
			cur = append(cur, b)
		}
		if len(cur) > 0 {
			r = append(r, symStr(cur))
		}
		return Value{R: &Slice{r}}
	})
	reg(vr("HasByte"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		for _, b := range strBytes(a[0]) {
			if _, ok := b.R.(*Tok); !ok && m.decide(m.tt.Eq(m.term(b, 8), m.term(a[1], 8))) {
				return boolV(true)
			}
		}
		return boolV(false)
	})
	for _, n := range []string{"strings.Clone", "internal/stringslite.Clone"} {
		reg(n, func(m *M, fr *Frame, in *Instr, a []Value) Value { return a[0] })
	}
	reg(vr("Sprintf"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		var as []Value
		if a[1].R != nil {
			as = a[1].R.(*Slice).s
		}
		return m.sprintf(goStr(a[0]), as)
	})
	reg(vr("AsOne"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		e, _ := a[0].R.(*Iface)
		t, _ := a[1].R.(*Iface)
		if e == nil || t == nil {
			return boolV(false)
		}
		el := under(t.t).(*types.Pointer).Elem()
		p := m.deref(fr, t.v)
		if it, ok := under(el).(*types.Interface); ok {
			if m.implements(e.t, it) {
				m.store(fr, p, a[0], 255)
				return boolV(true)
			}
			return boolV(false)
		}
		if types.Identical(e.t, el) {
			m.store(fr, p, e.v, widthOf(el))
			return boolV(true)
		}
		return boolV(false)
	})
	reg(vr("SameErr"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		x, _ := a[0].R.(*Iface)
		y, _ := a[1].R.(*Iface)
		if x == nil || y == nil {
			return boolV(x == nil && y == nil)
		}
		return fromTerm(m.equal(fr, a[0], a[1], types.Universe.Lookup("error").Type()))
	})
	// Snapshot / race helpers
	reg(vr("Goroutines"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		n := 0
		for _, g := range m.gs {
			if !g.done {
				n++
			}
		}
		return conc(uint64(n))
	})

	// Settled tells whether, once nothing more happens, no more goroutines are left than before.
	reg(vr("Settled"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		n := 0
		for _, g := range m.gs {
			if !g.done {
				n++
			}
		}
		m.cur.settling = false
		return boolV(uint64(n) <= a[0].N)
	})

	reg(vr("SameMem"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		x, _ := a[0].R.(*Slice)
		y, _ := a[1].R.(*Slice)
		if x == nil || y == nil || len(x.s) != len(y.s) {
			return boolV(false)
		}
		for i := range x.s {
			if x.s[i] != y.s[i] {
				return boolV(false)
			}
		}
		return boolV(true)
	})

	// Touch records that the caller's bytes are read or written by a system call.
	reg(vr("Touch"), func(m *M, fr *Frame, in *Instr, a []Value) Value {
		if sl, _ := a[0].R.(*Slice); sl != nil && m.multi {
			w := a[1].N == 1
			for i := range sl.s {
				m.track(&sl.s[i], w)
			}
		}
		return Value{}
	})

	// ---- sync ----
	lock := func(m *M, fr *Frame, in *Instr, a []Value) Value {
		m.stub("sync (modelled)")
		s := m.syncOf(a[0])
		if s.locked || s.readers > 0 {
			panic(unsupported("lock reached while held"))
		}
		s.locked = true
		m.acquire(m.cur, s.vc)
		m.acquire(m.cur, s.rvc)
		return Value{}
	}
	unlock := func(m *M, fr *Frame, in *Instr, a []Value) Value {
		s := m.syncOf(a[0])
		if !s.locked {
			panic(pathEnd{"violation", "fatal error: unlock of unlocked mutex"})
		}
		s.locked = false
		s.vc = s.vc.join(m.release(m.cur))
		return Value{}
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	try := func(m *M, fr *Frame, in *Instr, a []Value) Value {
		s := m.syncOf(a[0])
		if s.locked || s.readers > 0 {
			return boolV(false)
		}
		lock(m, fr, in, a)
		return boolV(true)
	}
	reg("(*sync.Mutex).TryLock", try)
	reg("(*sync.RWMutex).TryLock", try)
	reg("(*sync.RWMutex).RLock", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		s := m.syncOf(a[0])
		s.readers++
		m.acquire(m.cur, s.vc)
		return Value{}
	})
	reg("(*sync.RWMutex).RUnlock", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		s := m.syncOf(a[0])
		if s.readers <= 0 {
			panic(pathEnd{"violation", "fatal error: RUnlock of unlocked RWMutex"})
		}
		s.readers--
		s.rvc = s.rvc.join(m.release(m.cur))
		return Value{}
	})
	add := func(m *M, s *syncObj, d int64) {
		s.count += d
		if s.count < 0 {
			msg := "sync: negative WaitGroup counter"
			panic(&goPanic{msg: msg, v: Value{R: &Iface{types.Typ[types.String], strV(msg)}}})
		}
		s.vc = s.vc.join(m.release(m.cur))
	}
	reg("(*sync.WaitGroup).Add", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		m.stub("sync (modelled)")
		add(m, m.syncOf(a[0]), int64(m.concretize(a[1], 64, "WaitGroup.Add")))
		return Value{}
	})
	reg("(*sync.WaitGroup).Done", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		add(m, m.syncOf(a[0]), -1)
		return Value{}
	})
	reg("(*sync.WaitGroup).Wait", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		m.acquire(m.cur, m.syncOf(a[0]).vc)
		return Value{}
	})
	reg("(*sync.Once).Do", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		s := m.syncOf(a[0])
		if s.done {
			m.acquire(m.cur, s.vc)
			return Value{}
		}
		s.running = true
		cl := a[1].R.(*Closure)
		if in.op == oCall {
			fr.pc++
		}
		n := m.pushFrame(m.cur, m.compile(cl.fn), nil, cl.bind, -1)
		n.onRet = m.onceDone(s)
		return Value{}
	})
	// the item put last is the one got: what a goroutine sees that keeps to itself
	reg("(*sync.Pool).Put", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		s := m.syncOf(a[0])
		s.vc = s.vc.join(m.release(m.cur))
		if a[1].R != nil {
			s.pool = append(s.pool, a[1])
		}
		return Value{}
	})
	reg("(*sync.Pool).Get", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		m.stub("sync.Pool (last in, first out)")
		if s := m.syncOf(a[0]); len(s.pool) > 0 {
			m.acquire(m.cur, s.vc)
			v := s.pool[len(s.pool)-1]
			s.pool = s.pool[:len(s.pool)-1]
			return v
		}
		p := m.deref(fr, a[0]).R.(*Agg)
		cl, _ := p.e[len(p.e)-1].R.(*Closure)
		if cl == nil {
			return Value{}
		}
		dst := in.dst
		if in.op == oCall {
			fr.pc++
		}
		m.pushFrame(m.cur, m.compile(cl.fn), nil, cl.bind, dst)
		return Value{}
	})
	// ---- atomics ----
	sync2 := func(m *M, p Value) {
		s := m.syncOf(p)
		m.acquire(m.cur, s.vc)
		s.vc = s.vc.join(m.release(m.cur))
	}
	for _, ty := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 255}} {
		ty := ty
		reg("sync/atomic.Load"+ty.n, func(m *M, fr *Frame, in *Instr, a []Value) Value {
			p := m.deref(fr, a[0])
			sync2(m, a[0])
			return *p
		})
		reg("sync/atomic.Store"+ty.n, func(m *M, fr *Frame, in *Instr, a []Value) Value {
			p := m.deref(fr, a[0])
			sync2(m, a[0])
			*p = a[1]
			return Value{}
		})
		reg("sync/atomic.Swap"+ty.n, func(m *M, fr *Frame, in *Instr, a []Value) Value {
			p := m.deref(fr, a[0])
			sync2(m, a[0])
			o := *p
			*p = a[1]
			return o
		})
		reg("sync/atomic.CompareAndSwap"+ty.n, func(m *M, fr *Frame, in *Instr, a []Value) Value {
			p := m.deref(fr, a[0])
			sync2(m, a[0])
			var eq bool
			if ty.w == 255 {
				eq = p.R == a[1].R && p.N == a[1].N
			} else {
				eq = m.decide(m.tt.Eq(m.term(*p, ty.w), m.term(a[1], ty.w)))
			}
			if eq {
				*p = a[2]
			}
			return boolV(eq)
		})
		if ty.w != 255 {
			reg("sync/atomic.Add"+ty.n, func(m *M, fr *Frame, in *Instr, a []Value) Value {
				p := m.deref(fr, a[0])
				sync2(m, a[0])
				*p = fromTerm(m.tt.Add(m.term(*p, ty.w), m.term(a[1], ty.w)))
				return *p
			})
		}
	}
	// ---- runtime ----
	reg("runtime.GOMAXPROCS", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		m.stub("runtime.GOMAXPROCS (value chosen by the harness)")
		return conc(uint64(m.procs))
	})
	reg("runtime.NumCPU", func(m *M, fr *Frame, in *Instr, a []Value) Value { return conc(uint64(m.procs)) })
	reg("runtime.NumGoroutine", func(m *M, fr *Frame, in *Instr, a []Value) Value { return conc(uint64(len(m.gs))) })
	for _, n := range []string{"runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC",
		"(*strings.Builder).copyCheck", "(*flag.FlagSet).PrintDefaults", "flag.PrintDefaults", "internal/race.Enable", "internal/race.Disable"} {
		reg(n, nop)
	}
	// ---- time ----
	reg("time.Now", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		m.stub("time.Now (arbitrary)")
		if in.t == nil {
			return Value{}
		}
		return zero(in.t)
	})
	reg("(time.Time).Unix", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		m.nd["now"]++
		t := m.tt.Var(fmt.Sprintf("time.Unix#%d", m.nd["now"]), 64)
		return fromTerm(t)
	})
	for _, n := range []string{"UnixNano", "UnixMilli", "UnixMicro"} {
		n := n
		reg("(time.Time)."+n, func(m *M, fr *Frame, in *Instr, a []Value) Value {
			m.nd["now"]++
			return fromTerm(m.tt.Var(fmt.Sprintf("time.%s#%d", n, m.nd["now"]), 64))
		})
	}
	reg("time.Since", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		m.nd["now"]++
		return fromTerm(m.tt.Var(fmt.Sprintf("time.Since#%d", m.nd["now"]), 64))
	})
	reg("time.Sleep", nop)
	// ---- math ----
	regP("math.Float64bits", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		if t, ok := a[0].R.(*Term); ok {
			if t.Op == OpFFromBits {
				return fromTerm(t.A[0])
			}
			if m.spec != nil {
				panic(specAbort{"float bits"})
			}
			panic(unsupported("bits of a symbolic float"))
		}
		return a[0]
	})
	regP("math.Float64frombits", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		if t, ok := a[0].R.(*Term); ok {
			return fromTerm(m.tt.mk(OpFFromBits, sortFP, 0, nil, t))
		}
		return a[0]
	})
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Log2": math.Log2, "Log": math.Log, "Round": math.Round} {
		f := f
		reg("math."+n, func(m *M, fr *Frame, in *Instr, a []Value) Value {
			if a[0].R != nil {
				panic(unsupported("math function on a symbolic float"))
			}
			return conc(math.Float64bits(f(math.Float64frombits(a[0].N))))
		})
	}
	for _, x := range []struct {
		s string
		w uint8
	}{{"", 64}, {"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}} {
		x := x
		regP("math/bits.Len"+x.s, func(m *M, fr *Frame, in *Instr, a []Value) Value {
			if a[0].R == nil {
				return conc(uint64(bits.Len64(a[0].N)))
			}
			t := m.term(a[0], x.w)
			r := m.tt.Const(64, 0)
			for i := uint8(0); i < x.w; i++ {
				r = m.tt.Ite(m.tt.Eq(m.tt.Extract(t, i, 1), m.tt.Const(1, 1)), m.tt.Const(64, uint64(i)+1), r)
			}
			return fromTerm(r)
		})
		regP("math/bits.TrailingZeros"+x.s, func(m *M, fr *Frame, in *Instr, a []Value) Value {
			if a[0].R == nil {
				return conc(uint64(min(bits.TrailingZeros64(a[0].N), int(x.w))))
			}
			t := m.term(a[0], x.w)
			r := m.tt.Const(64, uint64(x.w))
			for i := int(x.w) - 1; i >= 0; i-- {
				r = m.tt.Ite(m.tt.Eq(m.tt.Extract(t, uint8(i), 1), m.tt.Const(1, 1)), m.tt.Const(64, uint64(i)), r)
			}
			return fromTerm(r)
		})
		regP("math/bits.OnesCount"+x.s, func(m *M, fr *Frame, in *Instr, a []Value) Value {
			if a[0].R == nil {
				return conc(uint64(bits.OnesCount64(a[0].N)))
			}
			t := m.term(a[0], x.w)
			r := m.tt.Const(64, 0)
			for i := uint8(0); i < x.w; i++ {
				r = m.tt.Add(r, m.tt.Zext(m.tt.Extract(t, i, 1), 64))
			}
			return fromTerm(r)
		})
	}
	// ---- bytealg ----
	idxByte := func(m *M, s []Value, c Value) Value {
		for i := range s {
			if m.decide(m.tt.Eq(m.term(s[i], 8), m.term(c, 8))) {
				return conc(uint64(i))
			}
		}
		return conc(^uint64(0))
	}
	sl := func(v Value) []Value {
		if v.R == nil {
			return nil
		}
		return v.R.(*Slice).s
	}
	reg("internal/bytealg.IndexByteString", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		return idxByte(m, strBytes(a[0]), a[1])
	})
	reg("internal/bytealg.IndexByte", func(m *M, fr *Frame, in *Instr, a []Value) Value { return idxByte(m, sl(a[0]), a[1]) })
	cnt := func(m *M, s []Value, c Value) Value {
		n := 0
		for i := range s {
			if m.decide(m.tt.Eq(m.term(s[i], 8), m.term(c, 8))) {
				n++
			}
		}
		return conc(uint64(n))
	}
	reg("internal/bytealg.CountString", func(m *M, fr *Frame, in *Instr, a []Value) Value { return cnt(m, strBytes(a[0]), a[1]) })
	reg("internal/bytealg.Count", func(m *M, fr *Frame, in *Instr, a []Value) Value { return cnt(m, sl(a[0]), a[1]) })
	reg("internal/bytealg.MakeNoZero", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		n := int(m.concretize(a[0], 256, "buffer size"))
		return Value{R: &Slice{m.newCells(types.Typ[types.Uint8], n, n)}}
	})
	bytesEq := func(m *M, x, y []Value) *Term {
		if len(x) != len(y) {
			return m.tt.False
		}
		r := m.tt.True
		for i := range x {
			r = m.tt.BAnd(r, m.tt.Eq(m.term(x[i], 8), m.term(y[i], 8)))
		}
		return r
	}
	reg("bytes.Equal", func(m *M, fr *Frame, in *Instr, a []Value) Value { return fromTerm(bytesEq(m, sl(a[0]), sl(a[1]))) })
	reg("internal/bytealg.Equal", func(m *M, fr *Frame, in *Instr, a []Value) Value { return fromTerm(bytesEq(m, sl(a[0]), sl(a[1]))) })
	reg("internal/bytealg.Compare", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		x, y := sl(a[0]), sl(a[1])
		for i := 0; i < len(x) && i < len(y); i++ {
			p, q := m.term(x[i], 8), m.term(y[i], 8)
			if m.decide(m.tt.Eq(p, q)) {
				continue
			}
			if m.decide(m.tt.Ult(p, q)) {
				return conc(^uint64(0))
			}
			return conc(1)
		}
		return conc(uint64(int64(len(x)-len(y)) >> 63 | int64(boolV(len(x) > len(y)).N)))
	})
	// ---- sort.Slice ----
	sortSlice := func(fname string) intrinsic {
		return func(m *M, fr *Frame, in *Instr, a []Value) Value {
			ifc, _ := a[0].R.(*Iface)
			if ifc == nil || ifc.v.R == nil {
				return Value{}
			}
			s := ifc.v.R.(*Slice).s
			swap := swapOf(ifc.v)
			f := m.p.byPath["sort"].Func(fname)
			m.p.ensureBuilt(f)
			ls := Value{R: &Agg{[]Value{a[1], {R: swap}}}}
			n := len(s)
			args := []Value{ls, conc(0), conc(uint64(n))}
			if fname == "pdqsort_func" {
				args = append(args, conc(uint64(bits.Len(uint(n)))))
			} else {
				args = []Value{ls, conc(uint64(n))}
			}
			if in.op == oCall {
				fr.pc++
			}
			m.pushFrame(m.cur, m.compile(f), args, nil, -1)
			return Value{}
		}
	}
	reg("sort.Slice", sortSlice("pdqsort_func"))
	reg("sort.SliceStable", sortSlice("stable_func"))
	// ---- strconv formatting ----
	fmtNum := func(sgn bool) intrinsic {
		return func(m *M, fr *Frame, in *Instr, a []Value) Value {
			base := 10
			if len(a) > 1 {
				base = int(a[1].N)
			}
			if t, ok := a[0].R.(*Term); ok {
				if base != 10 {
					panic(unsupported("symbolic number in base other than 10"))
				}
				return Value{R: &SymStr{[]Value{{R: &Tok{"d", t, sgn}}}}}
			}
			if sgn {
				return strV(strconv.FormatInt(int64(a[0].N), base))
			}
			return strV(strconv.FormatUint(a[0].N, base))
		}
	}
	reg("strconv.FormatInt", fmtNum(true))
	reg("strconv.FormatUint", fmtNum(false))
	reg("strconv.Itoa", fmtNum(true))
	app := func(sgn bool) intrinsic {
		f := fmtNum(sgn)
		return func(m *M, fr *Frame, in *Instr, a []Value) Value {
			s := f(m, fr, in, a[1:])
			var b []Value
			if a[0].R != nil {
				b = a[0].R.(*Slice).s
			}
			n := append(append([]Value(nil), b...), strBytes(s)...)
			return Value{R: &Slice{n}}
		}
	}
	reg("strconv.AppendInt", app(true))
	reg("strconv.AppendUint", app(false))
	reg("strconv.FormatFloat", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		f, p := byte(a[1].N), int(int64(a[2].N))
		if t, ok := a[0].R.(*Term); ok {
			v := string(f)
			if p >= 0 {
				v = "." + strconv.Itoa(p) + v
			}
			return Value{R: &SymStr{[]Value{{R: &Tok{v, t, false}}}}}
		}
		return strV(strconv.FormatFloat(math.Float64frombits(a[0].N), f, p, int(a[3].N)))
	})
	reg("strconv.Quote", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		if s, ok := a[0].R.(*SymStr); ok {
			q := Value{N: '"'}
			return symStr(append(append([]Value{q}, s.b...), q))
		}
		return strV(strconv.Quote(goStr(a[0])))
	})
	reg("strconv.ParseFloat", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		if _, ok := a[0].R.(*SymStr); ok {
			panic(unsupported("ParseFloat of symbolic text"))
		}
		f, err := strconv.ParseFloat(goStr(a[0]), int(a[1].N))
		if err != nil {
			panic(unsupported("ParseFloat error"))
		}
		return Value{R: &Tuple{[]Value{conc(math.Float64bits(f)), {}}}}
	})
}

// sprintf formats with symbolic numbers kept as tokens.
func (m *M) sprintf(format string, args []Value) Value {
	var out []Value
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, conc(uint64(s[i])))
		}
	}
	ai := 0
	for i := 0; i < len(format); {
		c := format[i]
		if c != '%' {
			lit(string([]byte{c}))
			i++
			continue
		}
		j := i + 1
		star := false
		for j < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[j]) >= 0 {
			if format[j] == '*' || format[j] == '[' {
				star = true
			}
			j++
		}
		if j >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		verb := format[j]
		spec := format[i+1 : j]
		i = j + 1
		if verb == '%' {
			lit("%")
			continue
		}
		if star {
			panic(unsupported("format " + format))
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		out = append(out, m.fmtOne(spec, verb, a)...)
	}
	if ai < len(args) {
		lit("%!(EXTRA ...)")
	}
	return symStr(out)
}

func (m *M) fmtOne(spec string, verb byte, a Value) []Value {
	ifc, _ := a.R.(*Iface)
	full := "%" + spec + string(verb)
	if ifc == nil {
		if verb == 'v' || verb == 'w' || verb == 's' {
			if verb == 'w' {
				full = "%" + spec + "v"
			}
			return strBytes(strV(fmt.Sprintf(full, nil)))
		}
		return strBytes(strV(fmt.Sprintf(full, nil)))
	}
	if verb == 'T' {
		return strBytes(strV(ifc.t.String()))
	}
	v := ifc.v
	switch kindOf(ifc.t) {
	case kInt:
		w, sgn, _ := intInfo(ifc.t)
		if t, ok := v.R.(*Term); ok {
			vb := string(verb)
			if verb == 'v' {
				vb = "d"
			}
			return []Value{{R: &Tok{spec + vb, t, sgn}}}
		}
		if sgn {
			return strBytes(strV(fmt.Sprintf(full, signed(v.N, w))))
		}
		if w == 8 {
			return strBytes(strV(fmt.Sprintf(full, uint8(v.N))))
		}
		return strBytes(strV(fmt.Sprintf(full, v.N)))
	case kFloat:
		if t, ok := v.R.(*Term); ok {
			return []Value{{R: &Tok{spec + string(verb), t, false}}}
		}
		return strBytes(strV(fmt.Sprintf(full, math.Float64frombits(v.N))))
	case kBool:
		b := v.N == 1
		if t, ok := v.R.(*Term); ok {
			b = m.decide(t)
		}
		return strBytes(strV(fmt.Sprintf(full, b)))
	case kString:
		if verb == 'w' {
			verb = 'v'
			full = "%" + spec + "v"
		}
		if s, ok := v.R.(*SymStr); ok {
			if verb == 'q' {
				q := Value{N: '"'}
				return append(append([]Value{q}, s.b...), q)
			}
			if spec != "" {
				panic(unsupported("padded symbolic text"))
			}
			return s.b
		}
		return strBytes(strV(fmt.Sprintf(full, goStr(v))))
	}
	if st, ok := under(ifc.t).(*types.Slice); ok && (verb == 'v' || verb == 'd' || verb == 's') {
		if _, _, isInt := intInfo(st.Elem()); isInt || kindOf(st.Elem()) == kString {
			out := []Value{conc('[')}
			if v.R != nil {
				for i, x := range v.R.(*Slice).s {
					if i > 0 {
						out = append(out, conc(' '))
					}
					out = append(out, m.fmtOne(spec, verb, Value{R: &Iface{st.Elem(), x}})...)
				}
			}
			return append(out, conc(']'))
		}
	}
	return strBytes(strV("<" + ifc.t.String() + ">"))
}

var _ = token.NoPos
