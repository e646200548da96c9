package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// dec is one recorded decision of a path.
type dec struct {
	kind  byte // b: branch, f: implied branch, v: value test, n: choice
	taken bool
	val   uint64
}

type item struct {
	prefix []dec
	model  Model
}

type obsRec struct {
	name string
	t    *Term
	c    uint64
	s    string
}

type Path struct {
	prefix []dec
	pos    int
	decs   []dec
	model  Model
	ev     *evaluator
	pc     []*Term
	sent   int // pc entries already asserted in the solver
	sentFP int
	sub    map[*Term]*Term
	memo   map[*Term]*Term
	inputs map[string]uint64 // concrete choices
	vars   map[string]uint8
	obs    []obsRec
	covers []string
	nviol  int
	ndec   int
}

type Violation struct {
	Entry  string              `json:"entry"`
	Msg    string              `json:"msg"`
	Vals   map[string]uint64   `json:"vals"`
	Trace  string              `json:"trace,omitempty"`
	Count  int                 `json:"count"`
	Gs     int                 `json:"goroutines,omitempty"`
	Others []map[string]uint64 `json:"others,omitempty"`
}

type Sample struct {
	Entry string            `json:"entry"`
	Vals  map[string]uint64 `json:"vals"`
	Obs   []string          `json:"obs,omitempty"`
	Gs    int               `json:"goroutines,omitempty"`
	Cover []string          `json:"cover,omitempty"`
	Obl   int               `json:"path_conditions"`
}

type Stats struct {
	Paths, Ok, Assumed, Incomplete, Viol int64
	Decisions, Forks, Forced             int64
	Steps                                int64
	Asserts, AssertsSolver, AssertsTriv  int64
	Queries, Unknown, Guessed            int64
	SolverMS                             int64
	Merges, MergeAborts                  int64
	MaxGoroutines                        int64
	Audited, AuditedFacts, AuditUnknown  int64
	AuditRefuted                         int64
}

func (a *Stats) add(b *Stats) {
	a.Paths += b.Paths
	a.Ok += b.Ok
	a.Assumed += b.Assumed
	a.Incomplete += b.Incomplete
	a.Viol += b.Viol
	a.Decisions += b.Decisions
	a.Forks += b.Forks
	a.Forced += b.Forced
	a.Steps += b.Steps
	a.Asserts += b.Asserts
	a.AssertsSolver += b.AssertsSolver
	a.AssertsTriv += b.AssertsTriv
	a.Queries += b.Queries
	a.Unknown += b.Unknown
	a.Guessed += b.Guessed
	a.SolverMS += b.SolverMS
	a.Merges += b.Merges
	a.MergeAborts += b.MergeAborts
	a.Audited += b.Audited
	a.AuditedFacts += b.AuditedFacts
	a.AuditUnknown += b.AuditUnknown
	a.AuditRefuted += b.AuditRefuted
	if b.MaxGoroutines > a.MaxGoroutines {
		a.MaxGoroutines = b.MaxGoroutines
	}
}

type Explorer struct {
	p         *Program
	entry     *ssa.Function
	name      string
	thorough  bool
	deadline  time.Time
	abandoned bool
	maxPaths  int64
	maxSteps  int64
	seed      int64
	nwork     int
	verbose   bool

	mu        sync.Mutex
	cond      *sync.Cond
	queue     []*item
	active    int
	started   int64
	stop      bool
	stats     Stats
	incs      map[string]int
	viols     []*Violation
	covers    map[string]int
	samples   []Sample
	partial   []Sample
	aud       auditState
	begun     time.Time
	violAt    float64 // when the first violation was found; exploration ends soon after
	known     func(msg string) bool
	funcs     map[string]bool
	stubs     map[string]int
	engErr    string
	dropped   int
	exhausted bool
}

type workStat struct {
	merges, mergeAborts int64
}

type Worker struct {
	x          *Explorer
	redirCache map[*ssa.Function]*ssa.Function
	fnCache    map[*ssa.Function]*Fn
	methCache  map[methKey]*ssa.Function
	impl       map[implKey]bool
	objCells   map[*MapObj]*Value
	stat       workStat
	st         Stats
	solver     *Solver
	fpSolver   *Solver
}

func (x *Explorer) posStr(p token.Pos) string {
	if p == token.NoPos {
		return "-"
	}
	q := x.p.prog.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(x.p.repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Explorer) run() {
	x.cond = sync.NewCond(&x.mu)
	x.incs = map[string]int{}
	x.begun = time.Now()
	x.covers = map[string]int{}
	x.funcs = map[string]bool{}
	x.stubs = map[string]int{}
	x.queue = []*item{{model: Model{}}}
	var wg sync.WaitGroup
	for i := 0; i < x.nwork; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{x: x, redirCache: map[*ssa.Function]*ssa.Function{}, fnCache: map[*ssa.Function]*Fn{},
				methCache: map[methKey]*ssa.Function{}, impl: map[implKey]bool{}}
			w.solver = newSolver(false, 8000)
			defer w.solver.close()
			w.loop()
			w.st.Queries += w.solver.queries
			w.st.Unknown += w.solver.unknown
			w.st.SolverMS += w.solver.time.Milliseconds()
			if w.fpSolver != nil {
				w.st.Queries += w.fpSolver.queries
				w.st.Unknown += w.fpSolver.unknown
				w.st.SolverMS += w.fpSolver.time.Milliseconds()
				w.fpSolver.close()
			}
			w.st.Merges, w.st.MergeAborts = w.stat.merges, w.stat.mergeAborts
			x.mu.Lock()
			if !x.abandoned {
				x.stats.add(&w.st)
			}
			x.mu.Unlock()
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Until(x.deadline) + 45*time.Second):
		// a path that ends neither by itself nor by the step check
		x.mu.Lock()
		x.stop, x.abandoned = true, true
		x.incs["time: paths abandoned"]++
		x.dropped += x.active
		x.mu.Unlock()
	}
	x.exhausted = len(x.queue) == 0 && x.dropped == 0
	x.aud.mu.Lock()
	x.stats.Audited, x.stats.AuditedFacts, x.stats.AuditUnknown = int64(x.aud.proved-x.aud.facts), int64(x.aud.facts), int64(x.aud.unknown)
	x.stats.AuditRefuted = int64(len(x.aud.refuted))
	x.aud.mu.Unlock()
}

func (w *Worker) loop() {
	x := w.x
	for {
		x.mu.Lock()
		for len(x.queue) == 0 && x.active > 0 && !x.stop {
			x.cond.Wait()
		}
		if x.stop || len(x.queue) == 0 {
			x.cond.Broadcast()
			x.mu.Unlock()
			return
		}
		n := len(x.queue) - 1
		// mostly depth first; now and then the oldest item, for spread
		idx := n
		if x.started%4 == 3 {
			idx = 0
		}
		it := x.queue[idx]
		x.queue[idx] = x.queue[n]
		x.queue[n] = nil
		x.queue = x.queue[:n]
		x.active++
		x.started++
		if x.maxPaths > 0 && x.started >= x.maxPaths || time.Now().After(x.deadline) || x.violAt > 0 && time.Since(x.begun).Seconds() > x.violAt+40 {
			if len(x.queue) > 0 {
				x.dropped += len(x.queue)
				x.incs["path or time budget: paths left unexplored"] += len(x.queue)
			}
			x.stop = true
		}
		x.mu.Unlock()
		w.runPath(it)
		x.mu.Lock()
		x.active--
		x.cond.Broadcast()
		x.mu.Unlock()
	}
}

func (x *Explorer) push(it *item) {
	x.mu.Lock()
	x.queue = append(x.queue, it)
	x.cond.Signal()
	x.mu.Unlock()
}

func (w *Worker) runPath(it *item) {
	x := w.x
	p := &Path{prefix: it.prefix, model: Model{}, sub: map[*Term]*Term{}, memo: map[*Term]*Term{},
		inputs: map[string]uint64{}, vars: map[string]uint8{}}
	for k, v := range it.model {
		p.model[k] = v
	}
	p.ev = newEval(p.model)
	m := &M{p: x.p, x: x, w: w, tt: NewTable(), path: p, shadow: map[*Value]*shadowCell{}, syncs: map[*Value]*syncObj{},
		inited: map[string]bool{}, nd: map[string]int{}, touched: map[*Fn]bool{}, stubs: map[string]int{}, procs: 4, delays: -1}
	w.objCells = map[*MapObj]*Value{}
	w.solver.beginPath()
	m.tt.aud = x.auditor(m, w.st.Paths)
	end := m.runEntry(x.entry)
	x.mu.Lock()
	gone := x.abandoned
	x.mu.Unlock()
	if gone {
		runtime.Goexit()
	}
	w.st.Paths++
	w.st.Steps += m.steps
	w.st.Decisions += int64(p.ndec)
	if int64(len(m.gs)) > w.st.MaxGoroutines {
		w.st.MaxGoroutines = int64(len(m.gs))
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for f := range m.touched {
		x.funcs[f.name] = true
	}
	for s, n := range m.stubs {
		x.stubs[s] += n
	}
	for _, c := range p.covers {
		x.covers[c]++
	}
	switch end.kind {
	case "ok":
		w.st.Ok++
		if p.nviol == 0 {
			x.addSample(p, len(m.gs))
		}
	case "assume":
		w.st.Assumed++
	case "violation":
		x.violation(m, end.msg, p.model)
		w.st.Viol++
	case "internal":
		w.st.Incomplete++
		x.incs[end.msg]++
		if x.engErr == "" {
			x.engErr = end.msg
		}
	default:
		w.st.Incomplete++
		x.incs[end.kind+": "+end.msg]++
		// the inputs of a path that could not be followed are tried on the real code
		if s := (Sample{Entry: x.name, Vals: p.vals(p.model)}); len(x.partial) < 64 {
			x.partial = append(x.partial, s)
		} else if k := int(mix(uint64(w.st.Incomplete)*31+uint64(len(p.pc))) % 256); k < 64 {
			x.partial[k] = s
		}
	}
	if x.verbose {
		fmt.Fprintf(os.Stderr, "path %s %s steps=%d decs=%d\n", end.kind, end.msg, m.steps, len(p.decs))
	}
}

func (x *Explorer) addSample(p *Path, gs int) {
	const keep = 400
	s := Sample{Entry: x.name, Vals: p.vals(p.model), Cover: p.covers, Obl: len(p.pc), Gs: gs}
	ev := newEval(p.model)
	for _, o := range p.obs {
		switch {
		case o.t != nil:
			s.Obs = append(s.Obs, fmt.Sprintf("%s=%d", o.name, ev.eval(o.t)))
		case o.name == "":
			s.Obs = append(s.Obs, o.s)
		default:
			s.Obs = append(s.Obs, fmt.Sprintf("%s=%d", o.name, o.c))
		}
	}
	if len(x.samples) < keep {
		x.samples = append(x.samples, s)
		return
	}
	// reservoir
	n := int(x.stats.Ok) + int(x.started)
	if k := int(mix(uint64(x.seed)*7919+uint64(n)) % uint64(n+1)); k < keep {
		x.samples[k] = s
	}
}

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func (p *Path) vals(model Model) map[string]uint64 {
	r := map[string]uint64{}
	for k := range p.vars {
		r[k] = model[k]
	}
	for k, v := range p.inputs {
		r[k] = v
	}
	return r
}

// violation records a counterexample (x.mu held).
func (x *Explorer) violation(m *M, msg string, model Model) {
	vals := m.path.vals(model)
	for _, v := range x.viols {
		if v.Msg == msg {
			v.Count++
			if len(v.Others) < 6 {
				v.Others = append(v.Others, vals)
			}
			if v.Count > 40 && !x.thorough {
				x.checkStop()
			}
			return
		}
	}
	v := &Violation{Entry: x.name, Msg: msg, Vals: vals, Count: 1, Gs: len(m.gs)}
	x.viols = append(x.viols, v)
	if x.violAt == 0 && (x.known == nil || !x.known(msg)) {
		x.violAt = time.Since(x.begun).Seconds()
	}
	if len(x.viols) >= 12 {
		x.checkStop()
	}
}

func (x *Explorer) checkStop() {
	if !x.stop {
		x.stop = true
		x.dropped += len(x.queue)
		x.incs["stopped after repeated violations: paths left unexplored"] += len(x.queue)
	}
}

func (m *M) runEntry(f *ssa.Function) (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case pathEnd:
				end = e
			case unsupported:
				end = pathEnd{"unsupported", string(e)}
				if m.cur != nil && m.cur.top != nil {
					end.msg += " [at " + m.where(m.cur) + "]"
				}
			case specAbort:
				end = pathEnd{"internal", "stray speculation abort: " + e.why}
			default:
				st := string(debug.Stack())
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, r, st)
				}
				i := strings.Index(st, "panic(")
				if i > 0 {
					st = st[i:]
				}
				ls := strings.Split(st, "\n")
				var keep []string
				for _, l := range ls {
					if strings.Contains(l, "engine/") {
						keep = append(keep, strings.TrimSpace(filepath.Base(l)))
					}
					if len(keep) > 3 {
						break
					}
				}
				at := ""
				if m.cur != nil && m.cur.top != nil {
					at = " in " + m.cur.top.fn.name + " at " + m.where(m.cur)
				}
				end = pathEnd{"internal", fmt.Sprintf("engine: %v%s (%s)", r, at, strings.Join(keep, " < "))}
			}
		}
	}()
	g := &G{id: 0, name: "main", vc: vclock{1}}
	m.gs = []*G{g}
	m.cur = g
	m.pushFrame(g, m.compile(f), nil, nil, -1)
	m.schedule()
	return pathEnd{"ok", ""}
}

func (m *M) compile(f *ssa.Function) *Fn {
	if c, ok := m.w.fnCache[f]; ok {
		return c
	}
	c := m.p.compile(f)
	m.w.fnCache[f] = c
	return c
}

func (m *M) checkBudget() {
	if m.steps > m.stepLimit() {
		if m.hangIs != "" {
			panic(pathEnd{"violation", m.hangIs})
		}
		panic(pathEnd{"budget", "steps per path in " + m.cur.top.fn.name})
	}
	if time.Now().After(m.x.deadline.Add(20 * time.Second)) {
		panic(pathEnd{"budget", "time"})
	}
}

func (m *M) stepLimit() int64 {
	if m.maxSteps > 0 {
		return m.maxSteps
	}
	return m.x.maxSteps
}

// ---- path condition ----

func (p *Path) setModel(nm Model) {
	for k, v := range nm {
		p.model[k] = v
	}
	p.ev = newEval(p.model)
}

func (m *M) addPC(t *Term) {
	if t.isConst() {
		return
	}
	m.path.pc = append(m.path.pc, t)
	m.addLit(t, true)
}

func (m *M) addLit(t *Term, b bool) {
	p := m.path
	if t.isConst() {
		return
	}
	p.sub[t] = m.tt.Bool(b)
	n := m.tt.Not(t)
	p.sub[n] = m.tt.Bool(!b)
	if m.tt.ord == nil {
		m.tt.ord = newOrder()
	}
	m.tt.ord.learn(t, b)
	m.tt.learnRange(t, b)
	switch {
	case t.Op == OpNot:
		m.addLit(t.A[0], !b)
	case b && t.Op == OpBAnd:
		for _, a := range t.A {
			m.addLit2(a, true)
		}
	case !b && t.Op == OpBOr:
		for _, a := range t.A {
			m.addLit2(a, false)
		}
	case b && t.Op == OpEq && t.A[0].W != 0:
		x, y := t.A[0], t.A[1]
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			p.sub[x] = y
			if y.C == 0 && x.Op == OpExtract && uint8(x.C)+x.W == x.A[0].W {
				m.zeroFrom(x.A[0], uint8(x.C))
			}
		}
	case b && t.Op == OpUlt && t.A[1].isConst() && t.A[1].C != 0 && t.A[1].C&(t.A[1].C-1) == 0:
		m.zeroFrom(t.A[0], uint8(bits.TrailingZeros64(t.A[1].C)))
	}
	p.memo = map[*Term]*Term{}
}

func (m *M) zeroFrom(x *Term, k uint8) {
	if m.tt.zx == nil {
		m.tt.zx = map[*Term]uint8{}
	}
	if o, ok := m.tt.zx[x]; !ok || k < o {
		m.tt.zx[x] = k
		// restate what is known about higher parts of x in the new normal form
		type kv struct {
			t *Term
			v bool
		}
		var add []kv
		for l, v := range m.path.sub {
			if l.Op == OpEq && v.isConst() {
				a, b := l.A[0], l.A[1]
				if a.isConst() {
					a, b = b, a
				}
				if b.isConst() && a.Op == OpExtract && a.A[0] == x {
					if n := m.tt.Eq(m.tt.Extract(x, uint8(a.C), a.W), b); !n.isConst() && n != l {
						add = append(add, kv{n, v.C == 1})
					}
				}
			}
		}
		for _, e := range add {
			if _, ok := m.path.sub[e.t]; !ok {
				m.path.sub[e.t] = m.tt.Bool(e.v)
				m.path.sub[m.tt.Not(e.t)] = m.tt.Bool(!e.v)
			}
		}
		if x.Op == OpSum && k > 0 && k < x.W {
			if m.tt.zlow == nil {
				m.tt.zlow = map[*Term]*Term{}
			}
			m.tt.zlow[m.tt.lowSum(x, k)] = x
		}
	}
}

func (m *M) addLit2(t *Term, b bool) {
	if _, ok := m.path.sub[t]; !ok {
		m.addLit(t, b)
	}
}

func (m *M) known(t *Term) (val, known bool) {
	if t.isConst() {
		return t.C == 1, true
	}
	p := m.path
	if r, ok := p.sub[t]; ok && r.isConst() {
		return r.C == 1, true
	}
	if len(p.sub) == 0 {
		return false, false
	}
	b := 3000
	r := m.tt.rebuild(t, p.sub, p.memo, &b)
	if r.isConst() {
		if m.tt.aud != nil {
			m.tt.aud.fact(t, r.C == 1)
		}
		// state a zero high part as a fact: later terms are built with it
		if l := t; l.Op == OpEq || l.Op == OpNot {
			v := r.C == 1
			if l.Op == OpNot {
				l, v = l.A[0], !v
			}
			if v && l.Op == OpEq && (l.A[0].Op == OpExtract || l.A[1].Op == OpExtract) {
				m.addLit(l, true)
			}
		}
		return r.C == 1, true
	}
	return false, false
}

// guess looks for a model of the path condition and t without the solver:
// small changes to the current model, checked by evaluation.
func (m *M) guess(t *Term) Model {
	p := m.path
	if len(t.vars) == 0 || len(t.vars) > 6 || t.size > 4000 {
		return nil
	}
	var names []*Term
	for _, id := range t.vars {
		names = append(names, m.tt.vars[id])
	}
	var bases []uint64
	for _, v := range names {
		bases = append(bases, p.model[v.Name])
	}
	over := Model{}
	for k, v := range p.model {
		over[k] = v
	}
	tries := 0
	try := func(v *Term, val uint64) bool {
		val &= maskWF(v.W)
		if val == p.model[v.Name] {
			return false
		}
		over[v.Name] = val
		ev := newEval(over)
		if ev.eval(t) != 1 {
			return false
		}
		tries++
		// most recent conditions first: they fail fastest
		for i := len(p.pc) - 1; i >= 0; i-- {
			if ev.eval(p.pc[i]) != 1 {
				return false
			}
		}
		return true
	}
	for _, v := range names {
		if v.W == 0 {
			if try(v, p.model[v.Name]^1) {
				return Model{v.Name: over[v.Name]}
			}
			over[v.Name] = p.model[v.Name]
			continue
		}
		ok := false
	search:
		for _, b := range append([]uint64{0}, bases...) {
			for _, d := range guessDeltas {
				if try(v, b+d) || d != 0 && try(v, b-d) {
					ok = true
					break search
				}
				if tries > 40 {
					break search
				}
			}
		}
		if ok {
			return Model{v.Name: over[v.Name]}
		}
		over[v.Name] = p.model[v.Name]
	}
	return nil
}

// scatter looks for a model of a floating-point condition among many
// assignments of its variables, each checked by evaluation: IEEE division is
// out of a bit-blaster's reach often enough to try this first.
func (m *M) scatter(t *Term, base Model) Model {
	p := m.path
	if len(t.vars) == 0 || len(t.vars) > 40 || t.size > 20000 {
		return nil
	}
	over := Model{}
	for k, v := range base {
		over[k] = v
	}
	rnd := uint64(len(p.pc))*0x9e3779b97f4a7c15 + uint64(t.ID)
	next := func() uint64 { rnd++; return mix(rnd) }
	hits := 0
	end := time.Now().Add(3 * time.Second)
	for i := 0; i < 20000 && hits < 400 && time.Now().Before(end); i++ {
		r := Model{}
		mode := next() % 4
		sh := next() % 64
		for _, id := range t.vars {
			v := m.tt.vars[id]
			if mode != 0 && next()%3 == 0 {
				over[v.Name] = base[v.Name]
				continue
			}
			var x uint64
			switch mode {
			case 0, 1:
				x = uint64(int64(next()) >> sh)
			case 2:
				x = uint64(int64(next()) >> (next() % 64))
			default:
				x = base[v.Name] + uint64(int64(next())>>(next()%64))
			}
			over[v.Name] = x & maskWF(v.W)
			r[v.Name] = over[v.Name]
		}
		ev := newEval(over)
		if ev.eval(t) != 1 {
			continue
		}
		hits++
		good := true
		for j := len(p.pc) - 1; j >= 0 && good; j-- {
			good = ev.eval(p.pc[j]) == 1
		}
		if good {
			for _, id := range t.vars {
				n := m.tt.vars[id].Name
				r[n] = over[n]
			}
			return r
		}
	}
	return nil
}

var guessDeltas = func() []uint64 {
	r := []uint64{0, 1, 2}
	for k := 6; k <= 63; k += 7 {
		r = append(r, 1<<k, 1<<(k+1)&^1)
	}
	return append(r, 1<<63, 3, 100)
}()

func (m *M) solverCheck(t *Term) (satRes, Model) {
	p := m.path
	if mod := m.guess(t); mod != nil {
		m.w.st.Guessed++
		return resSat, mod
	}
	s := m.w.solver
	for ; p.sent < len(p.pc); p.sent++ {
		s.assert(p.pc[p.sent])
	}
	if s.dead {
		return resUnknown, nil
	}
	if slowMS > 0 {
		s.note = m.where(m.cur) + " " + m.cur.top.fn.name
		if os.Getenv("GOSYM_TERM") != "" {
			s.note += "\n   " + t.String()
			for _, c := range p.pc {
				s.note += "\n      pc " + c.String()
			}
		}
	}
	r, mod := s.check(t)
	if s.dead && s.err != "" {
		m.x.note("solver error " + s.err)
	}
	if r != resSat {
		return r, mod
	}
	hasF := t.hasF
	for _, c := range p.pc {
		hasF = hasF || c.hasF
	}
	if !hasF {
		return r, mod
	}
	// the uninterpreted reading is satisfiable: accept the model if it is a
	// real one, otherwise decide with IEEE arithmetic
	full := Model{}
	for k, v := range p.model {
		full[k] = v
	}
	for k, v := range mod {
		full[k] = v
	}
	ev := newEval(full)
	okAll := ev.eval(t) == 1
	for _, c := range p.pc {
		okAll = okAll && ev.eval(c) == 1
	}
	if okAll {
		return r, mod
	}
	if mod := m.scatter(t, full); mod != nil {
		m.w.st.Guessed++
		return resSat, mod
	}
	if m.w.fpSolver == nil {
		m.w.fpSolver = newSolver(true, 12000)
	}
	fs := m.w.fpSolver
	fs.beginPath()
	for _, c := range p.pc {
		fs.assert(c)
	}
	return fs.check(t)
}

func (x *Explorer) note(s string) {
	x.mu.Lock()
	x.incs[s]++
	x.mu.Unlock()
}

func (m *M) replaying() bool { return m.path.pos < len(m.path.prefix) }

func (m *M) record(d dec) {
	m.path.decs = append(m.path.decs, d)
	m.path.ndec++
	if len(m.path.decs) > 200000 {
		panic(pathEnd{"budget", "decisions per path"})
	}
}

func (m *M) sibling(d dec, model Model) {
	p := m.path
	pre := make([]dec, len(p.decs)+1)
	copy(pre, p.decs)
	pre[len(p.decs)] = d
	mod := Model{}
	for k, v := range p.model {
		mod[k] = v
	}
	for k, v := range model {
		mod[k] = v
	}
	m.w.st.Forks++
	m.x.push(&item{prefix: pre, model: mod})
}

// branchOn decides condition t, recording kind k.
func (m *M) branchOn(t *Term, k byte, val uint64) bool {
	p := m.path
	cur := p.ev.eval(t) == 1
	not := m.tt.Not(t) // in both modes: replay builds the same terms
	if m.replaying() {
		d := p.prefix[p.pos]
		p.pos++
		if d.kind != k && !(d.kind == 'f') {
			panic(fmt.Sprintf("replay diverged: %c for %c", k, d.kind))
		}
		if d.taken != cur {
			panic("replay diverged: the model of the path leaves it")
		}
		m.record(d)
		m.took(t, d)
		return d.taken
	}
	other := t
	if cur {
		other = not
	}
	r, mod := m.solverCheck(other)
	d := dec{kind: k, taken: cur, val: val}
	switch r {
	case resSat:
		o := dec{kind: k, taken: !cur, val: val}
		m.sibling(o, mod)
	case resUnsat:
		d.kind = 'f'
		m.w.st.Forced++
	default:
		m.x.note("solver gave no answer on a branch; one side unexplored")
	}
	m.record(d)
	m.took(t, d)
	return cur
}

func (m *M) took(t *Term, d dec) {
	c := t
	if !d.taken {
		c = m.tt.Not(t)
	}
	if d.kind == 'f' {
		m.addLit(c, true)
		return
	}
	m.addPC(c)
}

func (m *M) decide(t *Term) bool {
	if v, ok := m.known(t); ok {
		return v
	}
	if m.spec != nil {
		panic(specAbort{"decide"})
	}
	return m.branchOn(t, 'b', 0)
}

var concDebug = os.Getenv("GOSYM_CONC") != ""

func (m *M) concretize(v Value, limit int, what string) uint64 {
	if v.R == nil {
		return v.N
	}
	t, ok := v.R.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("concretize %T", v.R)))
	}
	if m.spec != nil {
		panic(specAbort{"concretize"})
	}
	if concDebug {
		fmt.Fprintln(os.Stderr, "concretize", what, m.where(m.cur))
	}
	p := m.path
	b := 3000
	if r := m.tt.rebuild(t, p.sub, p.memo, &b); r.isConst() {
		return r.C
	}
	for i := 0; ; i++ {
		if i >= limit {
			panic(pathEnd{"bound", fmt.Sprintf("more than %d values of %s", limit, what)})
		}
		val := p.ev.eval(t)
		eq := m.tt.Eq(t, m.tt.Const(t.W, val))
		if b, ok := m.known(eq); ok {
			if b {
				return val
			}
			panic("concretize: value already excluded")
		}
		if m.replaying() {
			if d := p.prefix[p.pos]; d.kind == 'v' || d.kind == 'f' {
				val = d.val
			}
			eq = m.tt.Eq(t, m.tt.Const(t.W, val))
		}
		if m.branchOn(eq, 'v', val) {
			return val
		}
	}
}

func (m *M) chooseN(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if m.spec != nil {
		panic(specAbort{"choose"})
	}
	p := m.path
	if m.replaying() {
		d := p.prefix[p.pos]
		p.pos++
		if d.kind != 'n' {
			panic(fmt.Sprintf("replay diverged: choice for %c", d.kind))
		}
		m.record(d)
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		m.sibling(dec{kind: 'n', val: uint64(i)}, nil)
	}
	m.record(dec{kind: 'n'})
	return 0
}

func (m *M) assume(t *Term) {
	if v, ok := m.known(t); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if m.spec != nil {
		panic(specAbort{"assume"})
	}
	p := m.path
	if p.ev.eval(t) == 1 {
		m.addPC(t)
		return
	}
	r, mod := m.solverCheck(t)
	switch r {
	case resSat:
		p.setModel(mod)
		m.addPC(t)
	case resUnsat:
		panic(pathEnd{"assume", ""})
	default:
		panic(pathEnd{"solver", "no answer on an assumption"})
	}
}

func (m *M) assertTerm(t *Term, msg string) {
	m.w.st.Asserts++
	if v, ok := m.known(t); ok {
		m.w.st.AssertsTriv++
		if v {
			return
		}
		panic(pathEnd{"violation", msg})
	}
	if m.spec != nil {
		panic(specAbort{"assert"})
	}
	p := m.path
	neg := m.tt.Not(t)
	if m.replaying() {
		// already judged under the same path condition
		d := p.prefix[p.pos]
		p.pos++
		if d.kind != 'a' {
			panic(fmt.Sprintf("replay diverged: assertion for %c", d.kind))
		}
		m.record(d)
		if d.taken {
			m.addLit(t, true)
		} else {
			m.addPC(t)
		}
		return
	}
	if p.ev.eval(t) == 0 {
		m.record(dec{kind: 'a'})
		m.reportAndGo(t, msg, nil)
		return
	}
	m.w.st.AssertsSolver++
	r, mod := m.solverCheck(neg)
	m.record(dec{kind: 'a', taken: r == resUnsat})
	switch r {
	case resSat:
		m.reportAndGo(t, msg, mod)
	case resUnsat:
		m.addLit(t, true)
	default:
		m.x.note("solver gave no answer on an assertion: " + msg)
		m.addPC(t)
	}
}

// reportAndGo records the violation and continues on the side where t holds.
func (m *M) reportAndGo(t *Term, msg string, mod Model) {
	p := m.path
	full := Model{}
	for k, v := range p.model {
		full[k] = v
	}
	for k, v := range mod {
		full[k] = v
	}
	m.x.mu.Lock()
	m.x.violation(m, msg, full)
	m.x.mu.Unlock()
	p.nviol++
	m.assume(t)
}

// sortedKeys is used for stable output.
func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m *M) lookupMethod(t types.Type, f *types.Func) *ssa.Function {
	k := methKey{t, f.Id()}
	if r, ok := m.w.methCache[k]; ok {
		return r
	}
	r := m.p.lookupMethod(t, f)
	m.w.methCache[k] = r
	return r
}
