package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

// The audit of the preprocessing: on a sample of paths, every result of a term
// constructor that is not the plain node, and every condition that the facts
// of the path decided, is put to the solver again in its unsimplified form,
// together with the path condition of the moment. Shapes seen before are left
// out; the time for it is a small share of the run.
type audit struct {
	m     *M
	depth int
	left  int
}

type auditState struct {
	mu      sync.Mutex
	seen    map[string]int
	spent   time.Duration
	proved  int
	facts   int
	unknown int
	refuted []string
}

var auditAll = os.Getenv("GOSYM_AUDIT") != ""

func (x *Explorer) auditor(m *M, n int64) *audit {
	if !auditAll {
		if n%8 != 1 {
			return nil
		}
		x.aud.mu.Lock()
		over := x.aud.spent > time.Second+time.Since(x.begun)/4
		x.aud.mu.Unlock()
		if over {
			return nil
		}
	}
	a := &audit{m: m, left: 400}
	if auditAll {
		a.left = 1 << 30
	}
	return a
}

func auditShape(b *strings.Builder, t *Term, d int) {
	fmt.Fprintf(b, "%d.%d", t.Op, t.W)
	if t.Op == OpConst {
		switch t.C {
		case 0, 1, maskWF(t.W), maskWF(t.W) >> 1:
			fmt.Fprintf(b, "=%x", t.C)
		}
		return
	}
	if t.Op == OpExtract {
		fmt.Fprintf(b, "@%d", t.C)
	}
	if t.Op == OpSum && t.C == 0 {
		b.WriteByte('z')
	}
	if d == 0 || len(t.A) == 0 {
		return
	}
	b.WriteByte('(')
	for _, a := range t.A[:min(len(t.A), 3)] {
		auditShape(b, a, d-1)
		b.WriteByte(' ')
	}
	b.WriteByte(')')
}

// result audits r = op(as).
func (a *audit) result(op string, r *Term, as ...*Term) {
	if a.left <= 0 || a.m.spec != nil {
		return
	}
	allC := true
	for _, x := range as {
		if x.hasF || x.size > 3000 {
			return
		}
		allC = allC && x.isConst()
	}
	if allC {
		return
	}
	if len(as) == len(r.A) && r.Op != OpSum && r.Op != OpConcat && r.Op != OpIte {
		same := true
		for _, x := range as {
			in := false
			for _, y := range r.A {
				in = in || x == y
			}
			same = same && in
		}
		if same && plainName[r.Op] == op {
			return
		}
	}
	var b strings.Builder
	b.WriteString(op)
	for _, x := range as {
		auditShape(&b, x, 3)
		b.WriteByte(',')
	}
	b.WriteByte('>')
	auditShape(&b, r, 3)
	if !a.take(b.String()) {
		return
	}
	a.put(func(ref func(*Term) string) string {
		n := make([]string, len(as))
		for i, x := range as {
			n[i] = ref(x)
		}
		return "(not (= (" + op + " " + strings.Join(n, " ") + ") " + ref(r) + "))"
	}, false, func() string {
		s := op
		for _, x := range as {
			s += " " + x.String()
		}
		return s + " = " + r.String()
	})
}

// fact audits that the path condition settles t.
func (a *audit) fact(t *Term, v bool) {
	if a.left <= 0 || a.m.spec != nil || a.depth > 0 || t.hasF || t.size > 3000 {
		return
	}
	var b strings.Builder
	fmt.Fprintf(&b, "fact%v", v)
	auditShape(&b, t, 4)
	if !a.take(b.String()) {
		return
	}
	a.put(func(ref func(*Term) string) string {
		if v {
			return "(not " + ref(t) + ")"
		}
		return ref(t)
	}, true, func() string { return fmt.Sprintf("%s is %v on the path", t, v) })
}

func (a *audit) take(k string) bool {
	st := &a.m.x.aud
	st.mu.Lock()
	defer st.mu.Unlock()
	if st.seen == nil {
		st.seen = map[string]int{}
	}
	lim := 1
	if auditAll {
		lim = 4
	}
	if st.seen[k] >= lim {
		return false
	}
	st.seen[k]++
	a.left--
	return true
}

func (a *audit) put(q func(func(*Term) string) string, fact bool, what func() string) {
	m := a.m
	s, p := m.w.solver, m.path
	if s.dead {
		return
	}
	a.depth++
	defer func() { a.depth-- }()
	t0 := time.Now()
	for ; p.sent < len(p.pc); p.sent++ {
		s.assert(p.pc[p.sent])
	}
	s.quick(800)
	r := s.checkText(q(s.ref))
	s.quick(0)
	if s.dead {
		s.err = ""
	}
	st := &m.x.aud
	st.mu.Lock()
	st.spent += time.Since(t0)
	switch r {
	case resUnsat:
		st.proved++
		if fact {
			st.facts++
		}
	case resSat:
		if len(st.refuted) < 20 {
			w := what()
			st.refuted = append(st.refuted, w[:min(len(w), 4000)])
		}
	default:
		st.unknown++
	}
	st.mu.Unlock()
}

var plainName = map[Op]string{OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpNot: "not", OpBAnd: "and", OpBOr: "or", OpEq: "=", OpUlt: "bvult", OpSlt: "bvslt"}

func (tt *TermTable) Add(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.add0(a, b)
	}
	tt.aud.depth++
	r := tt.add0(a, b)
	tt.aud.depth--
	tt.aud.result("bvadd", r, a, b)
	return r
}

func (tt *TermTable) Sub(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.sub0(a, b)
	}
	tt.aud.depth++
	r := tt.sub0(a, b)
	tt.aud.depth--
	tt.aud.result("bvsub", r, a, b)
	return r
}

func (tt *TermTable) Neg(a *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.neg0(a)
	}
	tt.aud.depth++
	r := tt.neg0(a)
	tt.aud.depth--
	tt.aud.result("bvneg", r, a)
	return r
}

func (tt *TermTable) Mul(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.mul0(a, b)
	}
	tt.aud.depth++
	r := tt.mul0(a, b)
	tt.aud.depth--
	tt.aud.result("bvmul", r, a, b)
	return r
}

func (tt *TermTable) UDiv(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.uDiv0(a, b)
	}
	tt.aud.depth++
	r := tt.uDiv0(a, b)
	tt.aud.depth--
	tt.aud.result("bvudiv", r, a, b)
	return r
}

func (tt *TermTable) URem(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.uRem0(a, b)
	}
	tt.aud.depth++
	r := tt.uRem0(a, b)
	tt.aud.depth--
	tt.aud.result("bvurem", r, a, b)
	return r
}

func (tt *TermTable) SDiv(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.sDiv0(a, b)
	}
	tt.aud.depth++
	r := tt.sDiv0(a, b)
	tt.aud.depth--
	tt.aud.result("bvsdiv", r, a, b)
	return r
}

func (tt *TermTable) SRem(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.sRem0(a, b)
	}
	tt.aud.depth++
	r := tt.sRem0(a, b)
	tt.aud.depth--
	tt.aud.result("bvsrem", r, a, b)
	return r
}

func (tt *TermTable) Concat(parts ...*Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.concat0(parts...)
	}
	tt.aud.depth++
	r := tt.concat0(parts...)
	tt.aud.depth--
	var q []*Term
	for _, x := range parts {
		if x != nil && x.W > 0 {
			q = append(q, x)
		}
	}
	if len(q) > 1 {
		tt.aud.result("concat", r, q...)
	}
	return r
}

func (tt *TermTable) Extract(a *Term, lo, w uint8) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.extract0(a, lo, w)
	}
	tt.aud.depth++
	r := tt.extract0(a, lo, w)
	tt.aud.depth--
	tt.aud.result(fmt.Sprintf("(_ extract %d %d)", int(lo)+int(w)-1, lo), r, a)
	return r
}

func (tt *TermTable) Zext(a *Term, w uint8) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.zext0(a, w)
	}
	tt.aud.depth++
	r := tt.zext0(a, w)
	tt.aud.depth--
	if w >= a.W {
		tt.aud.result(fmt.Sprintf("(_ zero_extend %d)", w-a.W), r, a)
	}
	return r
}

func (tt *TermTable) Sext(a *Term, w uint8) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.sext0(a, w)
	}
	tt.aud.depth++
	r := tt.sext0(a, w)
	tt.aud.depth--
	if w >= a.W {
		tt.aud.result(fmt.Sprintf("(_ sign_extend %d)", w-a.W), r, a)
	}
	return r
}

func (tt *TermTable) LshrC(a *Term, n uint) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.lshrC0(a, n)
	}
	tt.aud.depth++
	r := tt.lshrC0(a, n)
	tt.aud.depth--
	if n <= uint(maskW(a.W)) || a.W >= 8 {
		tt.aud.result("bvlshr", r, a, &Term{Op: OpConst, W: a.W, C: uint64(n) & maskW(a.W)})
	}
	return r
}

func (tt *TermTable) ShlC(a *Term, n uint) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.shlC0(a, n)
	}
	tt.aud.depth++
	r := tt.shlC0(a, n)
	tt.aud.depth--
	if n <= uint(maskW(a.W)) || a.W >= 8 {
		tt.aud.result("bvshl", r, a, &Term{Op: OpConst, W: a.W, C: uint64(n) & maskW(a.W)})
	}
	return r
}

func (tt *TermTable) AshrC(a *Term, n uint) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.ashrC0(a, n)
	}
	tt.aud.depth++
	r := tt.ashrC0(a, n)
	tt.aud.depth--
	if n <= uint(maskW(a.W)) || a.W >= 8 {
		tt.aud.result("bvashr", r, a, &Term{Op: OpConst, W: a.W, C: uint64(n) & maskW(a.W)})
	}
	return r
}

func (tt *TermTable) Shl(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.shl0(a, b)
	}
	tt.aud.depth++
	r := tt.shl0(a, b)
	tt.aud.depth--
	tt.aud.result("bvshl", r, a, b)
	return r
}

func (tt *TermTable) Lshr(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.lshr0(a, b)
	}
	tt.aud.depth++
	r := tt.lshr0(a, b)
	tt.aud.depth--
	tt.aud.result("bvlshr", r, a, b)
	return r
}

func (tt *TermTable) Ashr(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.ashr0(a, b)
	}
	tt.aud.depth++
	r := tt.ashr0(a, b)
	tt.aud.depth--
	tt.aud.result("bvashr", r, a, b)
	return r
}

func (tt *TermTable) And(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.and0(a, b)
	}
	tt.aud.depth++
	r := tt.and0(a, b)
	tt.aud.depth--
	tt.aud.result("bvand", r, a, b)
	return r
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.or0(a, b)
	}
	tt.aud.depth++
	r := tt.or0(a, b)
	tt.aud.depth--
	tt.aud.result("bvor", r, a, b)
	return r
}

func (tt *TermTable) Xor(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.xor0(a, b)
	}
	tt.aud.depth++
	r := tt.xor0(a, b)
	tt.aud.depth--
	tt.aud.result("bvxor", r, a, b)
	return r
}

func (tt *TermTable) Not(a *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.not0(a)
	}
	tt.aud.depth++
	r := tt.not0(a)
	tt.aud.depth--
	tt.aud.result("not", r, a)
	return r
}

func (tt *TermTable) BAnd(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.bAnd0(a, b)
	}
	tt.aud.depth++
	r := tt.bAnd0(a, b)
	tt.aud.depth--
	tt.aud.result("and", r, a, b)
	return r
}

func (tt *TermTable) BOr(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.bOr0(a, b)
	}
	tt.aud.depth++
	r := tt.bOr0(a, b)
	tt.aud.depth--
	tt.aud.result("or", r, a, b)
	return r
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.ite0(c, a, b)
	}
	tt.aud.depth++
	r := tt.ite0(c, a, b)
	tt.aud.depth--
	tt.aud.result("ite", r, c, a, b)
	return r
}

func (tt *TermTable) Extreme(op Op, as ...*Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.extreme0(op, as...)
	}
	tt.aud.depth++
	r := tt.extreme0(op, as...)
	tt.aud.depth--
	if len(as) == 2 {
		cmp := "bvult"
		if op == OpSMin || op == OpSMax {
			cmp = "bvslt"
		}
		first := op == OpSMin || op == OpUMin
		tt.aud.extreme(cmp, first, r, as[0], as[1])
	}
	return r
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.eq0(a, b)
	}
	tt.aud.depth++
	r := tt.eq0(a, b)
	tt.aud.depth--
	if a.W == 0 || a.W <= 64 {
		tt.aud.result("=", r, a, b)
	}
	return r
}

func (tt *TermTable) Ult(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.ult0(a, b)
	}
	tt.aud.depth++
	r := tt.ult0(a, b)
	tt.aud.depth--
	tt.aud.result("bvult", r, a, b)
	return r
}

func (tt *TermTable) Slt(a, b *Term) *Term {
	if tt.aud == nil || tt.aud.depth > 0 {
		return tt.slt0(a, b)
	}
	tt.aud.depth++
	r := tt.slt0(a, b)
	tt.aud.depth--
	tt.aud.result("bvslt", r, a, b)
	return r
}

func (a *audit) extreme(cmp string, first bool, r, x, y *Term) {
	if a.left <= 0 || a.m.spec != nil || x.size > 3000 || y.size > 3000 {
		return
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s%v", cmp, first)
	auditShape(&b, x, 3)
	b.WriteByte(',')
	auditShape(&b, y, 3)
	b.WriteByte('>')
	auditShape(&b, r, 3)
	if !a.take(b.String()) {
		return
	}
	a.put(func(ref func(*Term) string) string {
		p, q := ref(x), ref(y)
		if !first {
			p, q = q, p
		}
		return "(not (= (ite (" + cmp + " " + p + " " + q + ") " + ref(x) + " " + ref(y) + ") " + ref(r) + "))"
	}, false, func() string { return cmp + " " + x.String() + " " + y.String() + " = " + r.String() })
}
