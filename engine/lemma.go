package main

import (
	"fmt"
	"strings"
	"sync"
	"time"
)

// Learned identities: when a conditional term is a function of a single
// subterm x only, the solver is asked once whether it equals x for every value
// of x; the answer is reused wherever the same shape is built again. This
// folds conversions such as "stored form and back" to their input, however
// they are written.

type lemmaDB struct {
	mu      sync.Mutex
	m       map[string]bool
	s       *Solver
	Asked   int64
	Proved  int64
	Folded  int64
	elapsed time.Duration
}

var lemmas = &lemmaDB{m: map[string]bool{}}

func (l *lemmaDB) close() {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.s != nil {
		l.s.close()
		l.s = nil
	}
}

var lemmaProbes = []uint64{0, 1, 2, 77, 1 << 31, 1 << 32, 1<<62 + 5, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<63 + 12345, ^uint64(0), ^uint64(0) - 99, 0xdeadbeefcafef00d, 0x123456789abcdef0}

// template is a shape over one hole.
type template struct {
	root, hole *Term
	order      []*Term // post-order, hole excluded
	num        map[*Term]int
	mult       map[*Term][2]uint64 // nodes equal to k*hole+c
}

// scaled reports whether y is the low part of k*x + c, for sums over the same terms.
func scaled(x, y *Term) (k, c uint64, ok bool) {
	if x.Op != OpSum || y.Op != OpSum || y.W > x.W || len(x.A) != len(y.A) {
		return
	}
	m := maskW(y.W)
	base := func(a *Term) *Term {
		if a.W < x.W && a.Op == OpExtract && a.C == 0 && a.A[0].W == x.W {
			return a.A[0]
		}
		return a
	}
	coef := func(t *Term) (uint64, bool) {
		for i, a := range x.A {
			if a == t {
				return x.K[i], true
			}
		}
		return 0, false
	}
	for i, a := range y.A {
		xk, ok := coef(base(a))
		if !ok {
			return 0, 0, false
		}
		if i == 0 {
			switch {
			case y.K[0] == xk&m:
				k = 1
			case y.K[0] == -xk&m:
				k = m
			default:
				return 0, 0, false
			}
		}
		if xk*k&m != y.K[i] {
			return 0, 0, false
		}
	}
	return k, (y.C - k*x.C) & m, true
}

// shape builds the template of t over x; nil if t depends on anything else.
func shape(t, x *Term) *template {
	p := &template{root: t, hole: x, num: map[*Term]int{}, mult: map[*Term][2]uint64{}}
	var walk func(n *Term) bool
	walk = func(n *Term) bool {
		if n == x || n.Op == OpConst {
			return true
		}
		if _, ok := p.num[n]; ok {
			return true
		}
		if n.Op == OpVar || n.Op >= OpFFromS || len(p.order) > 48 {
			return false
		}
		if k, c, ok := scaled(x, n); ok {
			p.mult[n] = [2]uint64{k, c}
		} else {
			if len(n.A) == 0 {
				return false
			}
			for _, a := range n.A {
				if !walk(a) {
					return false
				}
			}
		}
		p.num[n] = len(p.order)
		p.order = append(p.order, n)
		return true
	}
	if !walk(t) {
		return nil
	}
	return p
}

func (p *template) name(n *Term) string {
	if n == p.hole {
		return "x"
	}
	if n.Op == OpConst {
		return smtConst(n)
	}
	return fmt.Sprintf("n%d", p.num[n])
}

func (p *template) script() string {
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-const x %s)\n", smtSort(p.hole.W))
	for _, n := range p.order {
		var body string
		if kc, ok := p.mult[n]; ok {
			body = "x"
			if n.W < p.hole.W {
				body = fmt.Sprintf("((_ extract %d 0) x)", n.W-1)
			}
			if kc[0] != 1 {
				body = "(bvneg " + body + ")"
			}
			if kc[1] != 0 {
				body = fmt.Sprintf("(bvadd %s (_ bv%d %d))", body, kc[1], n.W)
			}
		} else {
			body = smtBody(n, p.name)
		}
		fmt.Fprintf(&b, "(define-fun n%d () %s %s)\n", p.num[n], smtSort(n.W), body)
	}
	return b.String()
}

func (p *template) plausible() bool {
	m := maskW(p.hole.W)
	for _, v := range lemmaProbes {
		v &= m
		e := newEval(Model{})
		e.memo[p.hole] = v
		if p.hole.Op == OpVar {
			e.m[p.hole.Name] = v
		}
		for n, kc := range p.mult {
			e.memo[n] = (kc[0]*v + kc[1]) & maskW(n.W)
		}
		if e.eval(p.root) != v {
			return false
		}
	}
	return true
}

// leaves are the non-constant results of nested conditionals.
func leaves(t *Term, out []*Term, depth int) []*Term {
	if t.Op == OpIte && depth < 8 && len(out) < 12 {
		return leaves(t.A[2], leaves(t.A[1], out, depth+1), depth+1)
	}
	if t.Op >= OpSMin && t.Op <= OpUMax && depth < 8 {
		for _, a := range t.A {
			out = leaves(a, out, depth+1)
		}
	}
	if t.Op == OpConst {
		return out
	}
	for _, o := range out {
		if o == t {
			return out
		}
	}
	return append(out, t)
}

// inner adds the same-width terms that conditions and pieces of t are taken from.
func inner(t *Term, out []*Term) []*Term {
	seen := map[*Term]bool{}
	n := 0
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || n > 48 || x.Op == OpConst || x.Op >= OpFFromS {
			return
		}
		seen[x] = true
		n++
		if x.W == t.W && x != t {
			for _, o := range out {
				if o == x {
					return
				}
			}
			switch x.Op {
			case OpVar, OpSum, OpSMin, OpSMax, OpUMin, OpUMax:
				if len(out) < 16 {
					out = append(out, x)
				}
			}
		}
		for _, a := range x.A {
			walk(a)
		}
	}
	walk(t)
	return out
}

// fold returns the subterm that t is identical to, or t.
func (tt *TermTable) fold(t *Term) *Term {
	if t.Op != OpIte && t.Op < OpSMin || t.Op > OpUMax || t.W < 8 || t.W > 64 {
		return t
	}
	for _, x := range inner(t, leaves(t, nil, 0)) {
		if x.W != t.W {
			continue
		}
		p := shape(t, x)
		if p == nil || !p.plausible() {
			continue
		}
		if lemmas.holds(p) {
			return x
		}
	}
	return t
}

func (l *lemmaDB) holds(p *template) bool {
	s := p.script()
	l.mu.Lock()
	defer l.mu.Unlock()
	if r, ok := l.m[s]; ok {
		if r {
			l.Folded++
		}
		return r
	}
	t0 := time.Now()
	if l.s == nil || l.s.dead {
		l.s = newSolver(false, 4000)
	}
	l.s.beginPath()
	l.s.send(s + "(assert (not (= x " + p.name(p.root) + ")))\n(check-sat)")
	l.s.in.Flush()
	l.Asked++
	ans, _ := l.s.readLine()
	if strings.HasPrefix(ans, "(error") {
		l.s.dead = true
	}
	r := ans == "unsat"
	if r {
		l.Proved++
		l.Folded++
	}
	l.m[s] = r
	l.elapsed += time.Since(t0)
	return r
}
