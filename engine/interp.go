package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type vclock []uint32

func (v vclock) join(o vclock) vclock {
	if len(o) > len(v) {
		n := make(vclock, len(o))
		copy(n, v)
		v = n
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}
func (v vclock) copy() vclock { return append(vclock(nil), v...) }
func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type deferRec struct {
	in   *Instr
	fn   Value
	args []Value
	stat *ssa.Function
}

type goPanic struct {
	v         Value // interface value
	msg       string
	runtime   bool
	recovered bool
	pos       token.Pos
}

type exitPanic struct{ code Value }
type exitCatch struct {
	fr  *Frame
	dst int32
}

type Frame struct {
	fn      *Fn
	regs    []Value
	blk     *Blk
	pc      int
	caller  *Frame
	retDst  int32
	defers  []deferRec
	pan     *goPanic // active panic unwinding through this frame
	owner   *Frame   // frame whose deferred call this is
	unwound bool     // this is a deferred call made while unwinding owner
	onRet   func(m *M, v Value)
	depth   int
}

type G struct {
	id      int
	top     *Frame
	done    bool
	cond    func() bool
	granted bool
	vc      vclock
	name    string
	res     Value // send completion
	sw      *sendWait
	settling bool // waits for the others to end or block
}

type undoRec struct {
	p   *Value
	old Value
	w   uint8
}
type specState struct {
	log   []undoRec
	steps int
}
type specAbort struct{ why string }

// pathEnd terminates the current path.
type pathEnd struct {
	kind string // ok, assume, violation, incomplete, budget, deadlock
	msg  string
}

type M struct {
	p       *Program
	x       *Explorer
	w       *Worker
	tt      *TermTable
	globals []*Value
	gs      []*G
	cur     *G
	steps   int64
	cells   int64
	spec    *specState
	multi   bool // more than one goroutine was ever started
	shadow  map[*Value]*shadowCell
	syncs   map[*Value]*syncObj
	inited  map[string]bool
	path    *Path
	nd      map[string]int
	touched map[*Fn]bool
	stubs   map[string]int
	chanID  int
	native  bool
	catch   int
	nobs    int
	allocLimit uint64
	allocBytes uint64
	exitCatch  *exitCatch
	mergeOff bool
	procs int
	delays int // deviations from the default schedule left; negative: unlimited
	hangIs string
	maxSteps int64
}

func (fr *Frame) get(m *M, o opnd) Value {
	if o >= 0 {
		return fr.regs[o]
	}
	if o > globalBase {
		return fr.fn.consts[-1-o]
	}
	return Value{R: m.global(int(globalBase - o))}
}

func (m *M) global(i int) *Value {
	for i >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	if m.globals[i] == nil {
		g := m.p.globals[i]
		m.needInit(g)
		if m.globals[i] == nil {
			v := zero(under(g.Type()).(*types.Pointer).Elem())
			m.globals[i] = &v
		}
	}
	return m.globals[i]
}

// term converts a scalar to a term of width w.
func (m *M) term(v Value, w uint8) *Term {
	if v.R == nil {
		return m.tt.Const(w, v.N)
	}
	if t, ok := v.R.(*Term); ok {
		return t
	}
	panic(unsupported(fmt.Sprintf("scalar expected, found %T", v.R)))
}

func fromTerm(t *Term) Value {
	if t.Op == OpConst {
		return Value{N: t.C}
	}
	return Value{R: t}
}

func (m *M) rtPanic(fr *Frame, msg string) {
	p := &goPanic{msg: "runtime error: " + msg, runtime: true}
	st := &Agg{[]Value{strV(p.msg)}}
	if m.p.rtErr != nil {
		p.v = Value{R: &Iface{m.p.rtErr, Value{R: st}}}
	} else {
		p.v = Value{R: &Iface{types.Typ[types.String], strV(p.msg)}}
	}
	panic(p)
}

// ---- memory ----

func (m *M) load(fr *Frame, p *Value, k kind) Value {
	if m.multi && !fr.fn.noTrack {
		m.track(p, false)
	}
	if k == kAgg {
		return copyVal(*p)
	}
	return *p
}

func (m *M) store(fr *Frame, p *Value, v Value, w uint8) {
	if a, ok := v.R.(*Agg); ok {
		d, ok := p.R.(*Agg)
		if !ok || len(d.e) != len(a.e) {
			if m.spec != nil {
				panic(specAbort{"agg store"})
			}
			*p = copyVal(v)
			return
		}
		for i := range a.e {
			m.store(fr, &d.e[i], a.e[i], w)
		}
		return
	}
	if m.multi && !fr.fn.noTrack {
		m.track(p, true)
	}
	if m.spec != nil {
		m.spec.log = append(m.spec.log, undoRec{p, *p, w})
	}
	*p = v
}

func ptrOf(v Value) *Value {
	p, _ := v.R.(*Value)
	return p
}

func (m *M) deref(fr *Frame, v Value) *Value {
	if p, ok := v.R.(*Value); ok {
		return p
	}
	if v.R == nil {
		if m.spec != nil {
			panic(specAbort{"nil"})
		}
		m.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("pointer expected, found %T in %s", v.R, fr.fn.name)))
}

// ---- calls ----

func (m *M) pushFrame(g *G, f *Fn, args []Value, bind []Value, retDst int32) *Frame {
	if f.blocks == nil {
		panic(unsupported("call of external function " + f.name))
	}
	fr := &Frame{fn: f, regs: make([]Value, f.nregs), blk: f.blocks[0], caller: g.top, retDst: retDst}
	if g.top != nil {
		fr.depth = g.top.depth + 1
		if fr.depth > 2000 {
			panic(pathEnd{"budget", "call depth over 2000 in " + f.name})
		}
	}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], bind)
	if f.isRepo && !m.touched[f] {
		m.touched[f] = true
	}
	g.top = fr
	return fr
}

// resolve the callee of a call instruction. Returns closure to call and full args.
func (m *M) resolve(fr *Frame, in *Instr) (*ssa.Function, *Closure, []Value) {
	if in.stat != nil {
		args := make([]Value, len(in.args))
		for i, a := range in.args {
			args[i] = fr.get(m, a)
		}
		return in.stat, nil, args
	}
	if in.call.IsInvoke() {
		recv := fr.get(m, in.a)
		ifc, ok := recv.R.(*Iface)
		if !ok {
			if recv.R == nil {
				m.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			panic(unsupported(fmt.Sprintf("invoke on %T", recv.R)))
		}
		f := m.lookupMethod(ifc.t, in.call.Method)
		if f == nil {
			panic(unsupported("method " + in.call.Method.FullName() + " on " + ifc.t.String()))
		}
		args := make([]Value, 1+len(in.args))
		args[0] = ifc.v
		for i, a := range in.args {
			args[i+1] = fr.get(m, a)
		}
		return f, nil, args
	}
	fv := fr.get(m, in.a)
	cl, ok := fv.R.(*Closure)
	if !ok {
		if fv.R == nil {
			m.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		panic(unsupported(fmt.Sprintf("call of %T", fv.R)))
	}
	args := make([]Value, len(in.args))
	for i, a := range in.args {
		args[i] = fr.get(m, a)
	}
	return cl.fn, cl, args
}

// invoke calls function f (with redirection and intrinsics) from frame fr.
// Returns true if the result is already stored.
func (m *M) invoke(g *G, fr *Frame, in *Instr, f *ssa.Function, cl *Closure, args []Value, dst int32) *Frame {
	if cl != nil && cl.native != nil {
		v := cl.native(m, args)
		if dst >= 0 {
			fr.regs[dst] = v
		}
		return nil
	}
	if r := m.redirectOf(f); r != nil {
		f = r
	}
	c := m.compile(f)
	if c.intr != nil {
		v := c.intr(m, fr, in, args)
		if dst >= 0 {
			fr.regs[dst] = v
		}
		return nil
	}
	if c.blocks == nil {
		panic(unsupported("external function " + c.name))
	}
	var bind []Value
	if cl != nil {
		bind = cl.bind
	}
	return m.pushFrame(g, c, args, bind, dst)
}

func (m *M) redirectOf(f *ssa.Function) *ssa.Function {
	if r, ok := m.w.redirCache[f]; ok {
		return r
	}
	m.p.mu.Lock()
	r := m.p.redirect(f)
	m.p.mu.Unlock()
	if r == nil {
		if _, isr := m.p.redir[fnPkgPath(f)]; isr && f.Parent() == nil && f.Name() != "init" {
			if lookupIntrinsic(f.String()) == nil && f.Synthetic == "" && !allowThrough[f.String()] {
				panic(unsupported("no model for " + f.String()))
			}
		}
	}
	m.w.redirCache[f] = r
	return r
}

var allowThrough = map[string]bool{}

// ---- main loop ----

// runG runs g until it finishes, blocks or must reschedule.
func (m *M) runG(g *G) {
	for !g.done {
		if m.runInner(g) {
			return
		}
	}
}

func (m *M) runInner(g *G) (stop bool) {
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case *goPanic:
				m.unwind(g, p)
				stop = false
			case exitPanic:
				// os.Exit: unwind to the catcher
				if m.exitCatch == nil {
					panic(pathEnd{"violation", "os.Exit called"})
				}
				c := m.exitCatch
				m.exitCatch = nil
				g.top = c.fr
				c.fr.regs[c.dst] = p.code
				stop = false
			default:
				panic(r)
			}
		}
	}()
	return m.loop(g)
}

func (m *M) unwind(g *G, p *goPanic) {
	fr := g.top
	if p.pos == token.NoPos && fr != nil && fr.pc < len(fr.blk.ins) {
		p.pos = fr.blk.ins[fr.pc].pos
	}
	for fr != nil {
		fr.pan = p
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			g.top = fr
			if m.callDeferred(g, fr, d, true) {
				return
			}
			// native deferred: continue with remaining
			if p.recovered {
				m.afterRecover(g, fr)
				return
			}
			continue
		}
		// a deferred call that panics replaces its owner's panic
		if fr.owner != nil && fr.unwound {
			fr = fr.caller
			continue
		}
		fr = fr.caller
	}
	g.top = nil
	g.done = true
	loc := ""
	if p.pos != token.NoPos {
		loc = " at " + m.x.posStr(p.pos)
	}
	panic(pathEnd{"violation", "panic: " + p.msg + loc})
}

// callDeferred pushes the deferred call; returns true if a frame was pushed.
func (m *M) callDeferred(g *G, fr *Frame, d deferRec, unwinding bool) bool {
	if d.in.bltn != "" {
		m.builtin(fr, d.in, d.args)
		return false
	}
	f := d.stat
	var cl *Closure
	if f == nil {
		cl, _ = d.fn.R.(*Closure)
		if cl == nil {
			m.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		f = cl.fn
	}
	n := m.invoke(g, fr, d.in, f, cl, d.args, -1)
	if n == nil {
		return false
	}
	n.owner = fr
	n.unwound = unwinding
	return true
}

func (m *M) afterRecover(g *G, fr *Frame) {
	fr.pan = nil
	g.top = fr
	// remaining defers run, then return via the recover block
	if fr.fn.recover != nil {
		fr.blk = &Blk{idx: -1, ins: []Instr{{op: oRunDefers}, {op: oJump}}, succs: []*Blk{fr.fn.recover}}
		fr.pc = 0
		return
	}
	// no recover block: results are zero values; run remaining defers first
	fr.blk = &Blk{idx: -1, ins: []Instr{{op: oRunDefers}, {op: oReturn, tok: token.ILLEGAL, ok: true}}}
	fr.pc = 0
}

func (m *M) doReturn(g *G, fr *Frame, v Value) {
	g.top = fr.caller
	if fr.onRet != nil {
		fr.onRet(m, v)
	}
	if fr.caller == nil {
		g.done = true
		return
	}
	if fr.owner != nil && fr.unwound {
		o := fr.owner
		p := o.pan
		if p != nil && p.recovered {
			m.afterRecover(g, o)
			return
		}
		if p != nil {
			g.top = o
			m.unwind(g, p)
			return
		}
		return
	}
	if fr.retDst >= 0 {
		fr.caller.regs[fr.retDst] = v
	}
}

func (m *M) jump(fr *Frame, to *Blk) {
	from := fr.blk.idx
	if len(to.phis) > 0 {
		e := predIndex(to, from)
		if len(to.phis) == 1 {
			ph := &to.phis[0]
			fr.regs[ph.dst] = fr.get(m, ph.edges[e])
		} else {
			var tmp [16]Value
			t := tmp[:0]
			for i := range to.phis {
				t = append(t, fr.get(m, to.phis[i].edges[e]))
			}
			for i := range to.phis {
				fr.regs[to.phis[i].dst] = t[i]
			}
		}
	}
	fr.blk, fr.pc = to, 0
}

func predIndex(b *Blk, from int) int {
	for i, p := range b.preds {
		if p == from {
			return i
		}
	}
	panic(unsupported("phi edge"))
}

func (m *M) loop(g *G) bool {
	for {
		fr := g.top
		if fr == nil {
			g.done = true
			return true
		}
		blk := fr.blk
		if fr.pc >= len(blk.ins) {
			panic(unsupported("fell off block in " + fr.fn.name))
		}
		in := &blk.ins[fr.pc]
		m.steps++
		if m.steps&0xfff == 0 {
			m.checkBudget()
		}
		switch in.op {
		case oJump:
			m.jump(fr, blk.succs[0])
			continue
		case oIf:
			c := fr.regs0(m, in.a)
			if c.R == nil {
				if c.N != 0 {
					m.jump(fr, blk.succs[0])
				} else {
					m.jump(fr, blk.succs[1])
				}
				continue
			}
			t := c.R.(*Term)
			if b, known := m.known(t); known {
				if b {
					m.jump(fr, blk.succs[0])
				} else {
					m.jump(fr, blk.succs[1])
				}
				continue
			}
			if in.reg != nil && in.reg.ok && !m.mergeOff && !(m.multi && in.reg.hasMem) {
				if m.tryMerge(g, fr, in, t) {
					continue
				}
			}
			if m.decide(t) {
				m.jump(fr, blk.succs[0])
			} else {
				m.jump(fr, blk.succs[1])
			}
			continue
		case oReturn:
			var v Value
			if in.ok && in.tok == token.ILLEGAL {
				if fr.fn.resTypes.Len() == 1 {
					v = zero(fr.fn.resTypes.At(0).Type())
				} else if fr.fn.resTypes.Len() > 1 {
					v = zero(fr.fn.resTypes)
				}
			} else if len(in.args) == 1 {
				v = fr.get(m, in.args[0])
			} else if len(in.args) > 1 {
				t := &Tuple{make([]Value, len(in.args))}
				for i, a := range in.args {
					t.v[i] = fr.get(m, a)
				}
				v = Value{R: t}
			}
			m.doReturn(g, fr, v)
			if g.done {
				return true
			}
			continue
		case oCall:
			if in.bltn != "" {
				args := make([]Value, len(in.args))
				for i, a := range in.args {
					args[i] = fr.get(m, a)
				}
				if in.bltn == "close" && m.yieldPoint(g, nil) {
					return true
				}
				v := m.builtin(fr, in, args)
				fr.regs[in.dst] = v
				fr.pc++
				continue
			}
			f, cl, args := m.resolve(fr, in)
			if f != nil {
				if r := m.redirectOf(f); r != nil {
					f = r
				}
				c := m.compile(f)
				if c.intr != nil {
					if bi, ok := blockingIntr[c.name]; ok {
						g.settling = c.name == vpath+"vrt.Settled"
						if m.yieldPoint(g, func() bool { return bi(m, args) }) {
							return true
						}
					}
					v := c.intr(m, fr, in, args)
					if g.top == fr { // not a tail call
						fr.regs[in.dst] = v
						fr.pc++
					}
					continue
				}
			}
			fr.pc++
			m.invoke(g, fr, in, f, cl, args, in.dst)
			continue
		case oGo:
			f, cl, args := m.resolve(fr, in)
			m.spawn(g, f, cl, args, in)
			fr.pc++
			continue
		case oDefer:
			d := deferRec{in: in}
			if in.bltn != "" {
				for _, a := range in.args {
					d.args = append(d.args, fr.get(m, a))
				}
			} else {
				f, cl, args := m.resolve(fr, in)
				d.args = args
				if cl != nil {
					d.fn = Value{R: cl}
				} else {
					d.stat = f
				}
			}
			fr.defers = append(fr.defers, d)
			fr.pc++
			continue
		case oRunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				// blocking intrinsics (mutex unlock etc. never block)
				fr.defers = fr.defers[:n-1]
				m.callDeferred(g, fr, d, false)
				continue
			}
			fr.pc++
			continue
		case oPanic:
			v := fr.get(m, in.a)
			panic(&goPanic{v: v, msg: m.panicText(v), pos: in.pos})
		case oSend:
			if m.execSend(g, fr, in) {
				return true
			}
			continue
		case oRecv:
			if m.execRecv(g, fr, in) {
				return true
			}
			continue
		case oSelect:
			if m.execSelect(g, fr, in) {
				return true
			}
			continue
		default:
			m.exec(g, fr, in)
			fr.pc++
		}
	}
}

func (fr *Frame) regs0(m *M, o opnd) Value {
	if o >= 0 {
		return fr.regs[o]
	}
	return fr.get(m, o)
}

func (m *M) panicText(v Value) string {
	if i, ok := v.R.(*Iface); ok {
		if isStr(i.v) && kindOf(i.t) == kString {
			return goStr(i.v)
		}
		if a, ok := i.v.R.(*Agg); ok && len(a.e) == 1 && isStr(a.e[0]) {
			return goStr(a.e[0])
		}
		return i.t.String()
	}
	return "nil"
}

// exec executes a straight-line instruction.
func (m *M) exec(g *G, fr *Frame, in *Instr) {
	switch in.op {
	case oNop:
	case oBin:
		fr.regs[in.dst] = m.binop(fr, in, fr.get(m, in.a), fr.get(m, in.b))
	case oNeg:
		v := fr.get(m, in.a)
		if v.R == nil {
			if in.k == kFloat {
				fr.regs[in.dst] = conc(math.Float64bits(-math.Float64frombits(v.N)))
			} else {
				fr.regs[in.dst] = conc(-v.N & maskW(in.w))
			}
		} else if in.k == kFloat {
			fr.regs[in.dst] = fromTerm(m.tt.F1(OpFNeg, sortFP, v.R.(*Term)))
		} else {
			fr.regs[in.dst] = fromTerm(m.tt.Neg(v.R.(*Term)))
		}
	case oNot:
		v := fr.get(m, in.a)
		if v.R == nil {
			fr.regs[in.dst] = conc(1 - v.N)
		} else {
			fr.regs[in.dst] = fromTerm(m.tt.Not(v.R.(*Term)))
		}
	case oCompl:
		v := fr.get(m, in.a)
		if v.R == nil {
			fr.regs[in.dst] = conc(^v.N & maskW(in.w))
		} else {
			fr.regs[in.dst] = fromTerm(m.tt.Xor(v.R.(*Term), m.tt.Const(in.w, ^uint64(0))))
		}
	case oLoad:
		p := m.deref(fr, fr.get(m, in.a))
		fr.regs[in.dst] = m.load(fr, p, in.k)
	case oStore:
		p := m.deref(fr, fr.get(m, in.a))
		m.store(fr, p, fr.get(m, in.b), in.w)
	case oAlloc:
		v := new(Value)
		if in.k == kAgg {
			*v = zero(in.t)
		}
		fr.regs[in.dst] = Value{R: v}
	case oFieldAddr:
		p := m.deref(fr, fr.get(m, in.a))
		a, ok := p.R.(*Agg)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T in %s", p.R, fr.fn.name)))
		}
		fr.regs[in.dst] = Value{R: &a.e[in.n]}
	case oField:
		fr.regs[in.dst] = fr.get(m, in.a).R.(*Agg).e[in.n]
	case oIndexAddr:
		x := fr.get(m, in.a)
		var s []Value
		if in.ok {
			p := m.deref(fr, x)
			s = p.R.(*Agg).e
		} else if x.R != nil {
			s = x.R.(*Slice).s
		}
		iv := fr.get(m, in.b)
		if iv.R != nil && in.w > 0 {
			if v, ok := m.table(fr, iv, in.w2, s, in.w); ok {
				fr.regs[in.dst] = Value{R: &v}
				return
			}
		}
		i := m.index(fr, iv, in.w2, in.sgn2, len(s))
		fr.regs[in.dst] = Value{R: &s[i]}
	case oIndex:
		x := fr.get(m, in.a)
		if in.k == kString {
			fr.regs[in.dst] = m.strIndex(fr, x, fr.get(m, in.b), in)
			return
		}
		s := x.R.(*Agg).e
		if iv := fr.get(m, in.b); iv.R != nil && in.w > 0 {
			if v, ok := m.table(fr, iv, in.w2, s, in.w); ok {
				fr.regs[in.dst] = v
				return
			}
		}
		i := m.index(fr, fr.get(m, in.b), in.w2, in.sgn2, len(s))
		fr.regs[in.dst] = s[i]
	case oLookup:
		x := fr.get(m, in.a)
		if in.k == kString {
			fr.regs[in.dst] = m.strIndex(fr, x, fr.get(m, in.b), in)
			return
		}
		mo, _ := x.R.(*MapObj)
		v, ok := m.mapGet(fr, mo, fr.get(m, in.b), in.x.(types.Type))
		if !ok {
			v = zero(in.t2)
		} else {
			v = copyVal(v)
		}
		if in.ok {
			fr.regs[in.dst] = Value{R: &Tuple{[]Value{v, boolV(ok)}}}
		} else {
			fr.regs[in.dst] = v
		}
	case oMapUpdate:
		mo, _ := fr.get(m, in.a).R.(*MapObj)
		if mo == nil {
			panic(&goPanic{msg: "assignment to entry in nil map", runtime: true, v: Value{R: &Iface{types.Typ[types.String], strV("assignment to entry in nil map")}}})
		}
		m.mapSet(fr, mo, fr.get(m, in.b), copyVal(fr.get(m, in.c)), in.t2)
	case oSlice:
		fr.regs[in.dst] = m.slice(fr, in)
	case oMakeSlice:
		fr.regs[in.dst] = m.makeSlice(fr, in)
	case oMakeMap:
		fr.regs[in.dst] = Value{R: &MapObj{index: map[string]int{}}}
	case oMakeChan:
		n := m.concretize(fr.get(m, in.a), 64, "channel size")
		m.chanID++
		if int64(n) < 0 {
			m.rtPanic(fr, "makechan: size out of range")
		}
		fr.regs[in.dst] = Value{R: &ChanObj{id: m.chanID, cap: int(n), elem: in.t2}}
	case oMakeClosure:
		c := &Closure{fn: in.stat, bind: make([]Value, len(in.args))}
		for i, a := range in.args {
			c.bind[i] = fr.get(m, a)
		}
		fr.regs[in.dst] = Value{R: c}
	case oMakeIface:
		fr.regs[in.dst] = Value{R: &Iface{in.t2, fr.get(m, in.a)}}
	case oCopy:
		fr.regs[in.dst] = fr.get(m, in.a)
	case oConvert:
		fr.regs[in.dst] = m.convert(fr, in, fr.get(m, in.a))
	case oTypeAssert:
		fr.regs[in.dst] = m.typeAssert(fr, in, fr.get(m, in.a))
	case oExtract:
		fr.regs[in.dst] = fr.get(m, in.a).R.(*Tuple).v[in.n]
	case oRange:
		x := fr.get(m, in.a)
		it := &MapIter{}
		if in.k == kString {
			it.isS, it.s = true, x
		} else if x.R != nil {
			it.m = x.R.(*MapObj)
		}
		fr.regs[in.dst] = Value{R: it}
	case oNext:
		fr.regs[in.dst] = m.next(fr, in, fr.get(m, in.a).R.(*MapIter))
	case oSliceToArr:
		x := fr.get(m, in.a)
		n := int(in.n)
		var s []Value
		if x.R != nil {
			s = x.R.(*Slice).s
		}
		if len(s) < n {
			m.rtPanic(fr, fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
		}
		c := &Value{R: &Agg{s[:n:n]}}
		fr.regs[in.dst] = Value{R: c}
	default:
		panic(unsupported(fmt.Sprintf("op %d", in.op)))
	}
}

// index checks bounds and concretizes.
func (m *M) index(fr *Frame, iv Value, w uint8, sgn bool, n int) int {
	if iv.R == nil {
		i := signed(iv.N, w)
		if !sgn && w < 64 {
			i = int64(iv.N)
		}
		if i < 0 || i >= int64(n) {
			if m.spec != nil {
				panic(specAbort{"bounds"})
			}
			m.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	t := iv.R.(*Term)
	if m.spec != nil {
		panic(specAbort{"symbolic index"})
	}
	// signed negative is huge unsigned, so one unsigned test suffices
	var inr *Term
	if uint64(n) > maskW(w) {
		inr = m.tt.True
	} else {
		inr = m.tt.Ult(t, m.tt.Const(w, uint64(n)))
	}
	if !m.decide(inr) {
		m.rtPanic(fr, fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return int(m.concretize(iv, 4096, "index"))
}

// table loads from a table of constants at a symbolic index: the element is a
// case distinction over the runs of equal elements.
func (m *M) table(fr *Frame, iv Value, w uint8, s []Value, ew uint8) (Value, bool) {
	t, ok := iv.R.(*Term)
	if !ok || len(s) == 0 || len(s) > 512 {
		return Value{}, false
	}
	runs := 1
	for i := range s {
		if s[i].R != nil {
			return Value{}, false
		}
		if i > 0 && s[i].N != s[i-1].N {
			runs++
		}
	}
	if runs > 24 {
		return Value{}, false
	}
	if uint64(len(s)) <= maskW(w) {
		if m.spec != nil {
			panic(specAbort{"symbolic index"})
		}
		if !m.decide(m.tt.Ult(t, m.tt.Const(w, uint64(len(s))))) {
			m.rtPanic(fr, fmt.Sprintf("index out of range [symbolic] with length %d", len(s)))
		}
	}
	r := m.tt.Const(ew, s[len(s)-1].N)
	for i := len(s) - 1; i > 0; i-- {
		if s[i].N != s[i-1].N {
			r = m.tt.Ite(m.tt.Ult(t, m.tt.Const(w, uint64(i))), m.tt.Const(ew, s[i-1].N), r)
		}
	}
	return fromTerm(r), true
}

func (m *M) strIndex(fr *Frame, x, iv Value, in *Instr) Value {
	n := strLen(x)
	i := m.index(fr, iv, in.w2, in.sgn2, n)
	switch r := x.R.(type) {
	case string:
		return conc(uint64(r[i]))
	case *SymStr:
		return r.b[i]
	}
	panic("strIndex")
}

func (m *M) sliceBound(fr *Frame, o opnd, def int) Value {
	if o == noOp {
		return conc(uint64(def))
	}
	return fr.get(m, o)
}

func (m *M) slice(fr *Frame, in *Instr) Value {
	x := fr.get(m, in.a)
	if in.k == kString {
		n := strLen(x)
		lo, hi := m.sliceBound(fr, in.b, 0), m.sliceBound(fr, in.c, n)
		m.checkSlice(fr, lo, hi, conc(uint64(n)), n)
		l, h := int(m.concretize(lo, 4096, "slice bound")), int(m.concretize(hi, 4096, "slice bound"))
		switch r := x.R.(type) {
		case nil:
			return Value{}
		case string:
			if l == h {
				return Value{}
			}
			return Value{R: r[l:h]}
		case *SymStr:
			return symStr(r.b[l:h])
		}
	}
	var s []Value
	isNil := false
	if in.ok {
		p := m.deref(fr, x)
		s = p.R.(*Agg).e
	} else if x.R != nil {
		s = x.R.(*Slice).s
	} else {
		isNil = true
	}
	c := cap(s)
	lo, hi, mx := m.sliceBound(fr, in.b, 0), m.sliceBound(fr, in.c, len(s)), m.sliceBound(fr, in.d, c)
	m.checkSlice(fr, lo, hi, mx, c)
	l, h, x3 := int(m.concretize(lo, 4096, "slice bound")), int(m.concretize(hi, 4096, "slice bound")), int(m.concretize(mx, 4096, "slice bound"))
	if isNil {
		return Value{}
	}
	return Value{R: &Slice{s[l:h:x3]}}
}

func (m *M) checkSlice(fr *Frame, lo, hi, mx Value, c int) {
	if lo.R == nil && hi.R == nil && mx.R == nil {
		l, h, x := int64(lo.N), int64(hi.N), int64(mx.N)
		if x < 0 || x > int64(c) || h < 0 || h > x || l < 0 || l > h {
			if m.spec != nil {
				panic(specAbort{"slice bounds"})
			}
			m.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, x, c))
		}
		return
	}
	if m.spec != nil {
		panic(specAbort{"symbolic slice"})
	}
	a, b, d := m.term(lo, 64), m.term(hi, 64), m.term(mx, 64)
	cc := m.tt.Const(64, uint64(c))
	ok := m.tt.BAnd(m.tt.Ule(a, b), m.tt.BAnd(m.tt.Ule(b, d), m.tt.Ule(d, cc)))
	if !m.decide(ok) {
		m.rtPanic(fr, "slice bounds out of range [symbolic]")
	}
}

func (m *M) makeSlice(fr *Frame, in *Instr) Value {
	lv, cv := fr.get(m, in.a), fr.get(m, in.b)
	esz := uint64(max(in.n, 1))
	check := func(v Value) int {
		limit := uint64(1<<47) / esz
		if v.R != nil {
			t := v.R.(*Term)
			w := t.W
			if w < 64 {
				if in.sgn2 {
					t = m.tt.Sext(t, 64)
				} else {
					t = m.tt.Zext(t, 64)
				}
			}
			if !m.decide(m.tt.Ule(t, m.tt.Const(64, limit))) {
				m.rtPanic(fr, "makeslice: len out of range")
			}
			if m.allocLimit > 0 {
				m.assertTerm(m.tt.Ule(t, m.tt.Const(64, m.allocLimit/esz)), "allocation out of proportion at "+m.x.posStr(in.pos))
			}
			return int(m.concretize(fromTerm(t), 2048, "allocation size"))
		}
		n := v.N
		if in.sgn2 {
			n = uint64(signed(v.N, in.w2))
		}
		if n > limit {
			m.rtPanic(fr, "makeslice: len out of range")
		}
		return int(n)
	}
	c := check(cv)
	n := c
	if in.b != in.a {
		n = check(lv)
	}
	if n > c {
		m.rtPanic(fr, "makeslice: cap out of range")
	}
	if m.allocLimit > 0 && uint64(c)*esz > m.allocLimit {
		m.assertTerm(m.tt.False, "allocation out of proportion at "+m.x.posStr(in.pos))
	}
	return Value{R: &Slice{m.newCells(in.t2, n, c)}}
}

func (m *M) newCells(elem types.Type, n, c int) []Value {
	m.cells += int64(c)
	if m.cells > 40_000_000 {
		panic(pathEnd{"budget", "memory cells"})
	}
	s := make([]Value, c)
	if kindOf(elem) == kAgg {
		for i := range s {
			s[i] = zero(elem)
		}
	}
	return s[:n]
}

func (m *M) convert(fr *Frame, in *Instr, v Value) Value {
	switch in.x.(convK) {
	case cvIntInt:
		if v.R == nil {
			n := v.N
			if in.sgn {
				n = uint64(signed(n, in.w))
			}
			return conc(n & maskW(in.w2))
		}
		t, ok := v.R.(*Term)
		if !ok {
			return v
		}
		if in.w2 <= in.w {
			return fromTerm(m.tt.Extract(t, 0, in.w2))
		}
		if in.sgn {
			return fromTerm(m.tt.Sext(t, in.w2))
		}
		return fromTerm(m.tt.Zext(t, in.w2))
	case cvIntFloat:
		if v.R == nil {
			var f float64
			if in.sgn {
				f = float64(signed(v.N, in.w))
			} else {
				f = float64(v.N)
			}
			if in.ok {
				f = float64(float32(f))
			}
			return conc(math.Float64bits(f))
		}
		if in.ok {
			panic(unsupported("symbolic float32"))
		}
		if in.sgn {
			return fromTerm(m.tt.F1(OpFFromS, sortFP, v.R.(*Term)))
		}
		return fromTerm(m.tt.F1(OpFFromU, sortFP, v.R.(*Term)))
	case cvFloatInt:
		if v.R == nil {
			f := math.Float64frombits(v.N)
			if in.sgn2 {
				return conc(uint64(int64(f)) & maskW(in.w2))
			}
			return conc(uint64(f) & maskW(in.w2))
		}
		if in.sgn2 {
			return fromTerm(m.tt.F1(OpFToS, in.w2, v.R.(*Term)))
		}
		return fromTerm(m.tt.F1(OpFToU, in.w2, v.R.(*Term)))
	case cvFloatFloat:
		if in.ok {
			if v.R != nil {
				panic(unsupported("symbolic float32"))
			}
			return conc(math.Float64bits(float64(float32(math.Float64frombits(v.N)))))
		}
		return v
	case cvToBytes:
		b := strBytes(v)
		s := make([]Value, len(b))
		copy(s, b)
		return Value{R: &Slice{s}}
	case cvFromBytes:
		if v.R == nil {
			return Value{}
		}
		s := v.R.(*Slice).s
		if m.multi && !fr.fn.noTrack {
			for i := range s {
				m.track(&s[i], false)
			}
		}
		c := make([]Value, len(s))
		copy(c, s)
		return symStr(c)
	case cvIntStr:
		if v.R != nil {
			panic(unsupported("symbolic rune to string"))
		}
		return strV(string(rune(signed(v.N, in.w))))
	case cvSame:
		return v
	}
	panic(unsupported("conversion " + in.t2.String() + " -> " + in.t.String()))
}

func (m *M) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := m.w.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	m.w.impl[k] = r
	return r
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (m *M) typeAssert(fr *Frame, in *Instr, v Value) Value {
	ifc, _ := v.R.(*Iface)
	ok := false
	var res Value
	if it, isI := under(in.t).(*types.Interface); isI {
		if ifc != nil {
			if it.NumMethods() == 0 || m.implements(ifc.t, it) {
				ok, res = true, v
			}
		}
	} else {
		if ifc != nil && (ifc.t == in.t || types.Identical(ifc.t, in.t)) {
			ok, res = true, ifc.v
		} else {
			res = zero(in.t)
		}
	}
	if in.ok {
		return Value{R: &Tuple{[]Value{res, boolV(ok)}}}
	}
	if !ok {
		m.rtPanic(fr, "interface conversion")
	}
	return res
}

func (m *M) next(fr *Frame, in *Instr, it *MapIter) Value {
	if it.isS {
		b := strBytes(it.s)
		if it.pos >= len(b) {
			return Value{R: &Tuple{[]Value{boolV(false), {}, {}}}}
		}
		c := b[it.pos]
		if c.R != nil {
			t, ok := c.R.(*Term)
			if !ok {
				panic(unsupported("range over formatted symbolic number"))
			}
			if !m.decide(m.tt.Ult(t, m.tt.Const(8, 0x80))) {
				panic(unsupported("symbolic non-ASCII byte in string range"))
			}
			r := Value{R: &Tuple{[]Value{boolV(true), conc(uint64(it.pos)), fromTerm(m.tt.Zext(t, 32))}}}
			it.pos++
			return r
		}
		var raw []byte
		for i := it.pos; i < len(b) && i < it.pos+4; i++ {
			if b[i].R != nil {
				break
			}
			raw = append(raw, byte(b[i].N))
		}
		rr, n := utf8.DecodeRune(raw)
		r := Value{R: &Tuple{[]Value{boolV(true), conc(uint64(it.pos)), conc(uint64(uint32(rr)))}}}
		it.pos += n
		return r
	}
	if it.m != nil {
		for it.pos < len(it.m.keys) {
			i := it.pos
			it.pos++
			if !it.m.dead[i] {
				return Value{R: &Tuple{[]Value{boolV(true), it.m.keys[i], copyVal(it.m.vals[i])}}}
			}
		}
	}
	return Value{R: &Tuple{[]Value{boolV(false), {}, {}}}}
}

// ---- maps ----

func (m *M) mapFind(fr *Frame, mo *MapObj, k Value, kt types.Type) int {
	if mo == nil {
		return -1
	}
	ks, ok := mapKey(k)
	if ok && !mo.sym {
		if i, f := mo.index[ks]; f {
			return i
		}
		return -1
	}
	for i := range mo.keys {
		if mo.dead[i] {
			continue
		}
		if m.decide(m.equal(fr, mo.keys[i], k, kt)) {
			return i
		}
	}
	return -1
}

func (m *M) mapGet(fr *Frame, mo *MapObj, k Value, kt types.Type) (Value, bool) {
	if m.multi && mo != nil && !fr.fn.noTrack {
		m.trackObj(mo, false)
	}
	i := m.mapFind(fr, mo, k, kt)
	if i < 0 {
		return Value{}, false
	}
	return mo.vals[i], true
}

func (m *M) mapSet(fr *Frame, mo *MapObj, k, v Value, kt types.Type) {
	if m.multi && !fr.fn.noTrack {
		m.trackObj(mo, true)
	}
	if i := m.mapFind(fr, mo, k, kt); i >= 0 {
		mo.vals[i] = v
		return
	}
	ks, ok := mapKey(k)
	if !ok {
		mo.sym = true
	} else {
		mo.index[ks] = len(mo.keys)
	}
	mo.keys = append(mo.keys, k)
	mo.vals = append(mo.vals, v)
	mo.dead = append(mo.dead, false)
	mo.n++
}

func (m *M) mapDelete(fr *Frame, mo *MapObj, k Value, kt types.Type) {
	if mo == nil {
		return
	}
	if m.multi && !fr.fn.noTrack {
		m.trackObj(mo, true)
	}
	if i := m.mapFind(fr, mo, k, kt); i >= 0 {
		mo.dead[i] = true
		mo.n--
		if ks, ok := mapKey(mo.keys[i]); ok {
			delete(mo.index, ks)
		}
	}
}
