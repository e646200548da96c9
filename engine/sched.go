package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (m *M) spawn(g *G, f *ssa.Function, cl *Closure, args []Value, in *Instr) {
	if m.redirectOf(f) != nil {
		f = m.redirectOf(f)
	}
	c := m.compile(f)
	if c.intr != nil {
		panic(unsupported("go statement on intrinsic " + c.name))
	}
	n := &G{id: len(m.gs), name: f.String()}
	if len(m.gs) > 1024 {
		panic(pathEnd{"budget", "more than 1024 goroutines"})
	}
	m.multi = true
	n.vc = g.vc.copy().join(make(vclock, n.id+1))
	n.vc[n.id] = 1
	g.vc = g.vc.join(make(vclock, g.id+1))
	g.vc[g.id]++
	var bind []Value
	if cl != nil {
		bind = cl.bind
	}
	m.pushFrame(n, c, args, bind, -1)
	m.gs = append(m.gs, n)
}

func (m *M) release(g *G) vclock {
	v := g.vc.copy()
	g.vc[g.id]++
	return v
}

func (m *M) acquire(g *G, v vclock) { g.vc = g.vc.join(v) }

// yieldPoint is called before a visible operation. can reports whether the
// operation can proceed. Returns true if the goroutine must stop here.
func (m *M) yieldPoint(g *G, can func() bool) bool {
	if m.spec != nil {
		panic(specAbort{"visible op"})
	}
	if g.granted {
		g.granted = false
		if can == nil || can() {
			return false
		}
	}
	if can != nil && !can() {
		g.cond = can
		return true
	}
	if !m.multi {
		return false
	}
	live := 0
	for _, o := range m.gs {
		if !o.done {
			live++
		}
	}
	if live == 1 {
		return false
	}
	if can == nil {
		can = func() bool { return true }
	}
	g.cond = can
	return true
}

// schedule runs goroutines until main (goroutine 0) has finished.
func (m *M) schedule() {
	for !m.gs[0].done {
		var free *G
		var en []*G
		for _, g := range m.gs {
			if g.done {
				continue
			}
			if g.cond == nil {
				if free == nil {
					free = g
				}
			} else if g.cond() {
				en = append(en, g)
			}
		}
		g := free
		if g == nil {
			switch len(en) {
			case 0:
				panic(pathEnd{"violation", "deadlock: all goroutines are blocked"})
			case 1:
				g = en[0]
			default:
				// the default is to go on with the goroutine that ran last
				for i, e := range en {
					if e == m.cur {
						en[0], en[i] = en[i], en[0]
					}
				}
				g = en[0]
				if m.delays != 0 {
					if c := m.chooseN(len(en), "sched"); c != 0 {
						g = en[c]
						m.delays--
					}
				}
			}
			g.granted = true
		}
		g.cond = nil
		m.cur = g
		m.runG(g)
		g.granted = false
	}
}

func (m *M) execSend(g *G, fr *Frame, in *Instr) bool {
	ch, _ := fr.get(m, in.a).R.(*ChanObj)
	if ch == nil {
		g.cond = func() bool { return false }
		return true
	}
	if g.sw != nil { // parked on an unbuffered channel
		if !g.sw.done {
			sw := g.sw
			g.cond = func() bool { return sw.done }
			return true
		}
		g.sw = nil
		fr.pc++
		return false
	}
	if m.yieldPoint(g, func() bool { return ch.closed || ch.cap == 0 || len(ch.buf) < ch.cap }) {
		return true
	}
	if ch.closed {
		panic(&goPanic{msg: "send on closed channel", runtime: true, v: Value{R: &Iface{types.Typ[types.String], strV("send on closed channel")}}})
	}
	v := copyVal(fr.get(m, in.b))
	if ch.cap == 0 {
		sw := &sendWait{g: g, v: v, vc: m.release(g)}
		ch.sendq = append(ch.sendq, sw)
		g.sw = sw
		g.cond = func() bool { return sw.done }
		return true
	}
	m.acquire(g, ch.recvVC)
	ch.buf = append(ch.buf, chanMsg{v, m.release(g)})
	fr.pc++
	return false
}

func (ch *ChanObj) canRecv() bool { return len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed }

func (m *M) doRecv(g *G, ch *ChanObj) (Value, bool) {
	if len(ch.buf) > 0 {
		c := ch.buf[0]
		ch.buf = ch.buf[1:]
		m.acquire(g, c.vc)
		ch.recvVC = ch.recvVC.join(m.release(g))
		return c.v, true
	}
	if len(ch.sendq) > 0 {
		sw := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		sw.done = true
		m.acquire(g, sw.vc)
		sw.g.vc = sw.g.vc.join(m.release(g))
		return sw.v, true
	}
	m.acquire(g, ch.closVC)
	return zero(ch.elem), false
}

func (m *M) execRecv(g *G, fr *Frame, in *Instr) bool {
	ch, _ := fr.get(m, in.a).R.(*ChanObj)
	if ch == nil {
		g.cond = func() bool { return false }
		return true
	}
	if m.yieldPoint(g, ch.canRecv) {
		return true
	}
	v, ok := m.doRecv(g, ch)
	if in.ok {
		fr.regs[in.dst] = Value{R: &Tuple{[]Value{v, boolV(ok)}}}
	} else {
		fr.regs[in.dst] = v
	}
	fr.pc++
	return false
}

func (m *M) execSelect(g *G, fr *Frame, in *Instr) bool {
	sel := in.x.(*ssa.Select)
	type cs struct {
		ch   *ChanObj
		send bool
		v    Value
	}
	var cases []cs
	for i, s := range sel.States {
		ch, _ := fr.get(m, in.args[2*i]).R.(*ChanObj)
		c := cs{ch: ch, send: s.Dir == types.SendOnly}
		if c.send {
			c.v = fr.get(m, in.args[2*i+1])
			if ch != nil && ch.cap == 0 {
				panic(unsupported("select send on an unbuffered channel"))
			}
		}
		cases = append(cases, c)
	}
	enabled := func() []int {
		var en []int
		for i, c := range cases {
			if c.ch == nil {
				continue
			}
			if c.send && (c.ch.closed || len(c.ch.buf) < c.ch.cap) || !c.send && c.ch.canRecv() {
				en = append(en, i)
			}
		}
		return en
	}
	can := func() bool { return !in.ok || len(enabled()) > 0 }
	if m.yieldPoint(g, can) {
		return true
	}
	en := enabled()
	idx := -1
	if len(en) == 1 {
		idx = en[0]
	} else if len(en) > 1 {
		idx = en[m.chooseN(len(en), "select")]
	}
	t := &Tuple{v: []Value{conc(uint64(int64(idx))), boolV(false)}}
	recvOK := false
	var rv []Value
	for i, c := range cases {
		if c.send {
			if i == idx {
				if c.ch.closed {
					panic(&goPanic{msg: "send on closed channel", runtime: true})
				}
				c.ch.buf = append(c.ch.buf, chanMsg{copyVal(c.v), m.release(g)})
			}
			continue
		}
		var v Value
		if i == idx {
			v, recvOK = m.doRecv(g, c.ch)
		} else if c.ch != nil {
			v = zero(c.ch.elem)
		}
		rv = append(rv, v)
	}
	t.v[1] = boolV(recvOK)
	t.v = append(t.v, rv...)
	fr.regs[in.dst] = Value{R: t}
	fr.pc++
	return false
}

// ---- data races ----

type shadowCell struct {
	wg    int
	wc    uint32
	wpos  string
	rg    []int
	rc    []uint32
}

func (m *M) track(p *Value, write bool) {
	if m.spec != nil {
		return
	}
	g := m.cur
	s := m.shadow[p]
	if s == nil {
		s = &shadowCell{wg: -1}
		m.shadow[p] = s
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.get(s.wg) {
		m.race(g, write, s.wpos)
	}
	if write {
		for i, r := range s.rg {
			if r != g.id && s.rc[i] > g.vc.get(r) {
				m.race(g, true, "an earlier read")
			}
		}
		s.wg, s.wc = g.id, g.vc.get(g.id)
		s.wpos = m.where(g)
		s.rg, s.rc = s.rg[:0], s.rc[:0]
		return
	}
	for i, r := range s.rg {
		if r == g.id {
			s.rc[i] = g.vc.get(g.id)
			return
		}
	}
	s.rg = append(s.rg, g.id)
	s.rc = append(s.rc, g.vc.get(g.id))
}

func (m *M) trackDeep(p *Value, write bool) {
	if a, ok := p.R.(*Agg); ok {
		for i := range a.e {
			m.trackDeep(&a.e[i], write)
		}
		return
	}
	m.track(p, write)
}

func (m *M) trackObj(o *MapObj, write bool) {
	c, ok := m.w.objCells[o]
	if !ok {
		c = new(Value)
		m.w.objCells[o] = c
	}
	m.track(c, write)
}

func (m *M) where(g *G) string {
	fr := g.top
	for fr != nil {
		if fr.pc < len(fr.blk.ins) {
			if s := m.x.posStr(fr.blk.ins[fr.pc].pos); s != "-" && !fr.fn.noTrack {
				return s
			}
		}
		fr = fr.caller
	}
	return "?"
}

func (m *M) race(g *G, write bool, other string) {
	k := "read"
	if write {
		k = "write"
	}
	panic(pathEnd{"violation", fmt.Sprintf("data race: %s at %s conflicts with access at %s", k, m.where(g), other)})
}

// ---- sync primitives ----

type syncObj struct {
	pool    []Value
	m       *MapObj
	locked  bool
	readers int
	count   int64
	vc      vclock
	rvc     vclock
	done    bool
	running bool
}

func (m *M) syncOf(v Value) *syncObj {
	p, ok := v.R.(*Value)
	if !ok {
		panic(&goPanic{msg: "runtime error: invalid memory address or nil pointer dereference", runtime: true, v: Value{R: &Iface{types.Typ[types.String], strV("nil pointer dereference")}}})
	}
	s := m.syncs[p]
	if s == nil {
		s = &syncObj{}
		m.syncs[p] = s
	}
	return s
}

// blockingIntr lists intrinsics that are visible operations with their
// enabling condition.
var blockingIntr = map[string]func(m *M, a []Value) bool{
	"(*sync.Mutex).Lock":     func(m *M, a []Value) bool { s := m.syncOf(a[0]); return !s.locked && s.readers == 0 },
	"(*sync.RWMutex).Lock":   func(m *M, a []Value) bool { s := m.syncOf(a[0]); return !s.locked && s.readers == 0 },
	"(*sync.RWMutex).RLock":  func(m *M, a []Value) bool { return !m.syncOf(a[0]).locked },
	"(*sync.Mutex).TryLock":  func(m *M, a []Value) bool { return true },
	"(*sync.WaitGroup).Wait": func(m *M, a []Value) bool { return m.syncOf(a[0]).count <= 0 },
	"(*sync.Once).Do":        func(m *M, a []Value) bool { return !m.syncOf(a[0]).running },
	vpath + "vrt.Yield":      func(m *M, a []Value) bool { return true },
	vpath + "vrt.Settled":    func(m *M, a []Value) bool { return m.idle() },
	"runtime.Gosched":        func(m *M, a []Value) bool { return true },
}

func init() {
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		for _, op := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap", "And", "Or"} {
			blockingIntr["sync/atomic."+op+ty] = func(m *M, a []Value) bool { return true }
		}
	}
	for _, op := range []string{"LoadPointer", "StorePointer", "SwapPointer", "CompareAndSwapPointer", "LoadUintptr", "StoreUintptr"} {
		blockingIntr["sync/atomic."+op] = func(m *M, a []Value) bool { return true }
	}
}

// idle tells whether every goroutine has ended or is blocked, those apart that wait for this.
func (m *M) idle() bool {
	for _, g := range m.gs {
		if !g.done && !g.settling && (g.cond == nil || g.cond()) {
			return false
		}
	}
	return true
}

func (m *M) onceDone(s *syncObj) func(m *M, v Value) {
	return func(m *M, v Value) {
		s.done, s.running = true, false
		s.vc = s.vc.join(m.release(m.cur))
	}
}
