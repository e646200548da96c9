package main

// Terms: hash-consed bit-vector / bool / float64 expressions with a
// simplifier strong enough to make most byte-level round trips syntactic.

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpSum    // linear sum: K[i]*A[i] + C
	OpMul    // A0*A1
	OpUDiv   // SMT semantics (guarded by the interpreter against zero)
	OpSDiv   // bvsdiv
	OpURem   // bvurem
	OpSRem   // bvsrem
	OpAnd    // bitwise
	OpOr     // bitwise
	OpXor    // bitwise
	OpShl    // A0 << A1
	OpLshr   // A0 >> A1
	OpAshr   // A0 >>s A1
	OpConcat // A[0] most significant
	OpExtract
	OpSext
	OpIte
	OpSMin // n-ary, signed
	OpSMax
	OpUMin
	OpUMax
	OpEq  // bool
	OpUlt // bool
	OpSlt // bool
	OpNot // bool
	OpBAnd
	OpBOr
	// floats (sort FP64)
	OpFVar
	OpFFromS // signed int -> float
	OpFFromU
	OpFFromBits
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFLt // bool
	OpFLe // bool
	OpFEq // bool, IEEE equality
	OpFSame
	OpFToS // float -> signed int w
	OpFToU
)

const (
	sortBool = 0
	sortFP   = 200
)

type Term struct {
	Op   Op
	W    uint8 // 0 bool, 1..64 bit-vector, 200 float64
	C    uint64
	A    []*Term
	K    []uint64
	ID   int
	Name string
	vars []int // sorted variable ids
	hasF bool
	size int
	msb  uint8 // msbZero memo: 1 yes, 2 no
}

type TermTable struct {
	m     map[string]*Term
	consM map[constKey]*Term
	next  int
	vars  []*Term
	byNm  map[string]*Term
	True  *Term
	False *Term
	folded map[*Term]*Term
	ord   *orderFacts      // order facts of the current path
	rng   map[*Term]irange // bounds of terms on the current path
	zlow  map[*Term]*Term // low part of such a sum -> the sum
	aud   *audit
	zx    map[*Term]uint8 // terms whose bits from this position up are known zero on the current path
}

type constKey struct {
	w uint8
	c uint64
}

func NewTable() *TermTable {
	t := &TermTable{m: map[string]*Term{}, consM: map[constKey]*Term{}, byNm: map[string]*Term{}, folded: map[*Term]*Term{}}
	t.True = t.Const(0, 1)
	t.False = t.Const(0, 0)
	return t
}

func maskW(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (tt *TermTable) Const(w uint8, c uint64) *Term {
	if w != sortFP {
		c &= maskW(w)
	}
	k := constKey{w, c}
	if t, ok := tt.consM[k]; ok {
		return t
	}
	t := &Term{Op: OpConst, W: w, C: c, ID: tt.next, size: 1}
	tt.next++
	tt.consM[k] = t
	return t
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

func (tt *TermTable) Var(name string, w uint8) *Term {
	if t, ok := tt.byNm[name]; ok {
		if t.W != w {
			panic(unsupported("nondet " + name + " used at two widths"))
		}
		return t
	}
	t := &Term{Op: OpVar, W: w, C: uint64(len(tt.vars)), ID: tt.next, Name: name, size: 1}
	if w == sortFP {
		t.Op = OpFVar
		t.hasF = true
	}
	t.vars = []int{len(tt.vars)}
	tt.next++
	tt.vars = append(tt.vars, t)
	tt.byNm[name] = t
	return t
}

func mergeVars(as []*Term) []int {
	var cur []int
	for _, a := range as {
		if len(a.vars) == 0 {
			continue
		}
		if cur == nil {
			cur = a.vars
			continue
		}
		// subset fast path
		i, j := 0, 0
		sub := true
		for j < len(a.vars) {
			if i >= len(cur) || cur[i] > a.vars[j] {
				sub = false
				break
			}
			if cur[i] == a.vars[j] {
				j++
			}
			i++
		}
		if sub {
			continue
		}
		out := make([]int, 0, len(cur)+len(a.vars))
		i, j = 0, 0
		for i < len(cur) || j < len(a.vars) {
			if j >= len(a.vars) || (i < len(cur) && cur[i] < a.vars[j]) {
				out = append(out, cur[i])
				i++
			} else if i >= len(cur) || a.vars[j] < cur[i] {
				out = append(out, a.vars[j])
				j++
			} else {
				out = append(out, cur[i])
				i++
				j++
			}
		}
		cur = out
	}
	return cur
}

func (tt *TermTable) mk(op Op, w uint8, c uint64, k []uint64, as ...*Term) *Term {
	var buf [160]byte
	b := buf[:0]
	b = append(b, byte(op), w)
	b = binary.AppendUvarint(b, c)
	b = append(b, byte(len(k)))
	for _, x := range k {
		b = binary.AppendUvarint(b, x)
	}
	for _, a := range as {
		b = binary.AppendUvarint(b, uint64(a.ID))
	}
	if t, ok := tt.m[string(b)]; ok {
		return t
	}
	t := &Term{Op: op, W: w, C: c, K: k, A: append([]*Term(nil), as...), ID: tt.next}
	tt.next++
	t.vars = mergeVars(t.A)
	t.size = 1
	for _, a := range t.A {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		if a.hasF {
			t.hasF = true
		}
	}
	if op >= OpFFromS {
		t.hasF = true
	}
	tt.m[string(b)] = t
	return t
}

func (t *Term) isConst() bool { return t.Op == OpConst }
func (t *Term) isC(v uint64) bool {
	return t.Op == OpConst && t.C == v&maskW(t.W)
}

func signed(c uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(c)
	}
	return int64(c<<(64-w)) >> (64 - w)
}

// ---- linear sums ----

type lin struct {
	atoms []*Term
	ks    []uint64
	c     uint64
}

func (tt *TermTable) toLin(t *Term) lin {
	switch t.Op {
	case OpConst:
		return lin{c: t.C}
	case OpSum:
		return lin{t.A, t.K, t.C}
	}
	return lin{atoms: []*Term{t}, ks: []uint64{1}}
}

func (tt *TermTable) fromLin(l lin, w uint8) *Term {
	m := maskW(w)
	type ak struct {
		a *Term
		k uint64
	}
	var xs []ak
	for i, a := range l.atoms {
		if k := l.ks[i] & m; k != 0 {
			xs = append(xs, ak{a, k})
		}
	}
	c := l.c & m
	if len(xs) == 0 {
		return tt.Const(w, c)
	}
	if len(xs) == 1 && c == 0 && xs[0].k == 1 {
		return xs[0].a
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].a.ID < xs[j].a.ID })
	as := make([]*Term, len(xs))
	ks := make([]uint64, len(xs))
	for i, x := range xs {
		as[i], ks[i] = x.a, x.k
	}
	if len(xs) == 1 && c == 0 && xs[0].k == m && xs[0].a.Op == OpConcat && len(xs[0].a.A) == 2 &&
		xs[0].a.A[0].isC(0) && xs[0].a.A[1].W == 1 {
		// -(zero-extended bit)
		return tt.Sext(xs[0].a.A[1], w)
	}
	if len(ks) > 255 {
		// key encodes len in a byte; split is unnecessary, use a wider tag
		return tt.mkBigSum(w, c, ks, as)
	}
	return tt.mk(OpSum, w, c, ks, as...)
}

func (tt *TermTable) mkBigSum(w uint8, c uint64, ks []uint64, as []*Term) *Term {
	var b []byte
	b = append(b, byte(OpSum), w, 0xff, 0xff, 0xff)
	b = binary.AppendUvarint(b, c)
	b = binary.AppendUvarint(b, uint64(len(ks)))
	for _, x := range ks {
		b = binary.AppendUvarint(b, x)
	}
	for _, a := range as {
		b = binary.AppendUvarint(b, uint64(a.ID))
	}
	if t, ok := tt.m[string(b)]; ok {
		return t
	}
	t := &Term{Op: OpSum, W: w, C: c, K: ks, A: as, ID: tt.next, size: len(as) * 2}
	tt.next++
	t.vars = mergeVars(as)
	for _, a := range as {
		if a.hasF {
			t.hasF = true
		}
	}
	tt.m[string(b)] = t
	return t
}

// addLin returns a + k*b
func (tt *TermTable) addLin(a, b *Term, k uint64) *Term {
	w := a.W
	m := maskW(w)
	if a.isConst() && b.isConst() {
		return tt.Const(w, a.C+k*b.C)
	}
	la, lb := tt.toLin(a), tt.toLin(b)
	// both atom lists are sorted by ID: merge
	out := lin{c: (la.c + k*lb.c) & m}
	i, j := 0, 0
	for i < len(la.atoms) || j < len(lb.atoms) {
		if j >= len(lb.atoms) || (i < len(la.atoms) && la.atoms[i].ID < lb.atoms[j].ID) {
			out.atoms = append(out.atoms, la.atoms[i])
			out.ks = append(out.ks, la.ks[i])
			i++
		} else if i >= len(la.atoms) || lb.atoms[j].ID < la.atoms[i].ID {
			out.atoms = append(out.atoms, lb.atoms[j])
			out.ks = append(out.ks, k*lb.ks[j]&m)
			j++
		} else {
			if kk := (la.ks[i] + k*lb.ks[j]) & m; kk != 0 {
				out.atoms = append(out.atoms, la.atoms[i])
				out.ks = append(out.ks, kk)
			}
			i++
			j++
		}
	}
	return tt.fromLin(out, w)
}

func (tt *TermTable) add0(a, b *Term) *Term { return tt.addLin(a, b, 1) }
func (tt *TermTable) sub0(a, b *Term) *Term {
	if a == b {
		return tt.Const(a.W, 0)
	}
	return tt.addLin(a, b, ^uint64(0))
}
func (tt *TermTable) neg0(a *Term) *Term { return tt.addLin(tt.Const(a.W, 0), a, ^uint64(0)) }

func (tt *TermTable) mul0(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return tt.Const(a.W, a.C*b.C)
		}
		if b.C == 0 {
			return b
		}
		if b.C == 1 {
			return a
		}
		return tt.addLin(tt.Const(a.W, 0), a, b.C)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return tt.mk(OpMul, a.W, 0, nil, a, b)
}

func (tt *TermTable) uDiv0(a, b *Term) *Term {
	if b.isConst() && b.C != 0 {
		if a.isConst() {
			return tt.Const(a.W, a.C/b.C)
		}
		if b.C&(b.C-1) == 0 {
			return tt.LshrC(a, uint(bits.TrailingZeros64(b.C)))
		}
	}
	return tt.mk(OpUDiv, a.W, 0, nil, a, b)
}
func (tt *TermTable) uRem0(a, b *Term) *Term {
	if b.isConst() && b.C != 0 {
		if a.isConst() {
			return tt.Const(a.W, a.C%b.C)
		}
		if b.C&(b.C-1) == 0 {
			return tt.And(a, tt.Const(a.W, b.C-1))
		}
	}
	return tt.mk(OpURem, a.W, 0, nil, a, b)
}
func (tt *TermTable) sDiv0(a, b *Term) *Term {
	if b.isConst() && a.isConst() && b.C != 0 {
		x, y := signed(a.C, a.W), signed(b.C, b.W)
		if y == -1 {
			return tt.Const(a.W, uint64(-x))
		}
		return tt.Const(a.W, uint64(x/y))
	}
	if b.isConst() && b.C == 1 {
		return a
	}
	if b.isConst() && signed(b.C, b.W) > 0 && tt.msbZero(a) {
		return tt.UDiv(a, b)
	}
	return tt.mk(OpSDiv, a.W, 0, nil, a, b)
}
func (tt *TermTable) sRem0(a, b *Term) *Term {
	if b.isConst() && a.isConst() && b.C != 0 {
		x, y := signed(a.C, a.W), signed(b.C, b.W)
		if y == -1 {
			return tt.Const(a.W, 0)
		}
		return tt.Const(a.W, uint64(x%y))
	}
	if b.isConst() && signed(b.C, b.W) > 0 && tt.msbZero(a) {
		return tt.URem(a, b)
	}
	return tt.mk(OpSRem, a.W, 0, nil, a, b)
}

// msbZero: top bit known zero syntactically.
func (tt *TermTable) msbZero(a *Term) bool {
	if a.msb == 0 {
		if tt.msbZero1(a) {
			a.msb = 1
		} else {
			a.msb = 2
		}
	}
	return a.msb == 1
}

func (tt *TermTable) msbZero1(a *Term) bool {
	switch a.Op {
	case OpConst:
		return a.C>>(a.W-1)&1 == 0
	case OpConcat:
		return tt.msbZero(a.A[0])
	case OpIte:
		return tt.msbZero(a.A[1]) && tt.msbZero(a.A[2])
	case OpSMin, OpSMax, OpUMin, OpUMax:
		some, all := false, true
		for _, x := range a.A {
			z := tt.msbZero(x)
			some = some || z
			all = all && z
		}
		return all || some && (a.Op == OpSMax || a.Op == OpUMin)
	case OpAnd:
		return tt.msbZero(a.A[0]) || tt.msbZero(a.A[1])
	case OpOr, OpXor:
		return tt.msbZero(a.A[0]) && tt.msbZero(a.A[1])
	case OpSum:
		// non-overflowing sums of small ranges
		if _, hi := tt.urange(a, 0); hi>>(a.W-1)&1 == 0 {
			return true
		}
	}
	return false
}

// urange returns a conservative unsigned range.
func (tt *TermTable) urange(a *Term, depth int) (lo, hi uint64) {
	m := maskW(a.W)
	if depth > 6 {
		return 0, m
	}
	switch a.Op {
	case OpConst:
		return a.C, a.C
	case OpConcat:
		for _, p := range a.A {
			l, h := tt.urange(p, depth+1)
			lo = lo<<p.W | l
			hi = hi<<p.W | h
		}
		return lo, hi
	case OpIte:
		l1, h1 := tt.urange(a.A[1], depth+1)
		l2, h2 := tt.urange(a.A[2], depth+1)
		return min(l1, l2), max(h1, h2)
	case OpUMin, OpUMax:
		lo, hi = tt.urange(a.A[0], depth+1)
		for _, x := range a.A[1:] {
			l, h := tt.urange(x, depth+1)
			if a.Op == OpUMin {
				lo, hi = min(lo, l), min(hi, h)
			} else {
				lo, hi = max(lo, l), max(hi, h)
			}
		}
		return lo, hi
	case OpAnd:
		_, h1 := tt.urange(a.A[0], depth+1)
		_, h2 := tt.urange(a.A[1], depth+1)
		return 0, min(h1, h2)
	case OpSum:
		lo, hi = a.C, a.C
		for i, x := range a.A {
			l, h := tt.urange(x, depth+1)
			k := a.K[i]
			if k > 1<<20 || len(a.A) > 40 {
				return 0, m
			}
			c1, p1 := bits.Mul64(h, k)
			if c1 != 0 {
				return 0, m
			}
			s, cc := bits.Add64(hi, p1, 0)
			if cc != 0 || s > m {
				return 0, m
			}
			hi = s
			lo += l * k
		}
		return lo, hi
	case OpURem:
		if a.A[1].isConst() && a.A[1].C > 0 {
			return 0, a.A[1].C - 1
		}
	case OpUDiv:
		if a.A[1].isConst() && a.A[1].C > 0 {
			l, h := tt.urange(a.A[0], depth+1)
			return l / a.A[1].C, h / a.A[1].C
		}
	}
	return 0, m
}

// ---- structure ops ----

func (tt *TermTable) concat0(parts ...*Term) *Term {
	// flatten + merge
	var out []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p.Op == OpConcat {
			for _, q := range p.A {
				push(q)
			}
			return
		}
		if n := len(out); n > 0 {
			q := out[n-1]
			if q.isConst() && p.isConst() {
				out[n-1] = tt.Const(q.W+p.W, q.C<<p.W|p.C)
				return
			}
			if q.Op == OpExtract && p.Op == OpExtract && q.A[0] == p.A[0] && q.C == p.C+uint64(p.W) {
				out[n-1] = tt.Extract(q.A[0], uint8(p.C), p.W+q.W)
				return
			}
			if q.Op == OpExtract && q.C == uint64(p.W) && q.A[0].Op == OpSum && tt.Extract(q.A[0], 0, p.W) == p {
				out[n-1] = tt.Extract(q.A[0], 0, p.W+q.W)
				return
			}
			if q.Op == OpIte && p.Op == OpIte && q.A[0] == p.A[0] && q.W+p.W <= 64 {
				out[n-1] = tt.Ite(q.A[0], tt.Concat(q.A[1], p.A[1]), tt.Concat(q.A[2], p.A[2]))
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		if p != nil && p.W > 0 {
			push(p)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := uint8(0)
	for _, p := range out {
		w += p.W
	}
	if len(out) == 2 && tt.zx != nil && out[0].isC(0) && out[1].Op == OpExtract && out[1].C == 0 && out[1].A[0].W == w {
		if k, ok := tt.zx[out[1].A[0]]; ok && k <= out[1].W {
			return out[1].A[0]
		}
	}
	if len(out) == 2 && tt.zlow != nil && out[0].isC(0) {
		if x := tt.zlow[out[1]]; x != nil && x.W == w {
			return x
		}
	}
	return tt.mk(OpConcat, w, 0, nil, out...)
}

// Extract w bits starting at lo.
func (tt *TermTable) extract0(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.W {
		return a
	}
	if tt.zx != nil {
		if k, ok := tt.zx[a]; ok && lo+w > k {
			if lo >= k {
				return tt.Const(w, 0)
			}
			return tt.Concat(tt.Const(lo+w-k, 0), tt.Extract(a, lo, k-lo))
		}
	}
	switch a.Op {
	case OpConst:
		return tt.Const(w, a.C>>lo)
	case OpExtract:
		return tt.Extract(a.A[0], lo+uint8(a.C), w)
	case OpConcat:
		var parts []*Term
		pos := a.W
		for _, p := range a.A {
			pos -= p.W // p occupies [pos, pos+p.W)
			l := max(pos, lo)
			h := min(pos+p.W, lo+w)
			if l < h {
				parts = append(parts, tt.Extract(p, l-pos, h-l))
			}
		}
		return tt.Concat(parts...)
	case OpIte:
		if a.A[1].isConst() || a.A[2].isConst() || a.A[1].Op == OpConcat || a.A[2].Op == OpConcat {
			return tt.Ite(a.A[0], tt.Extract(a.A[1], lo, w), tt.Extract(a.A[2], lo, w))
		}
	case OpAnd, OpOr, OpXor:
		if a.Op == OpXor && !a.A[1].isConst() {
			break
		}
		if a.A[1].isConst() || a.A[0].Op == OpConcat || a.A[1].Op == OpConcat {
			x, y := tt.Extract(a.A[0], lo, w), tt.Extract(a.A[1], lo, w)
			switch a.Op {
			case OpAnd:
				return tt.And(x, y)
			case OpOr:
				return tt.Or(x, y)
			default:
				return tt.Xor(x, y)
			}
		}
	case OpSext:
		src := a.A[0]
		if lo+w <= src.W {
			return tt.Extract(src, lo, w)
		}
		if lo >= src.W-1 {
			return tt.Sext(tt.Extract(src, src.W-1, 1), w)
		}
		return tt.Sext(tt.Extract(src, lo, src.W-lo), w)
	case OpSum:
		if lo == 0 {
			return tt.lowSum(a, w)
		}
	}
	return tt.mk(OpExtract, w, uint64(lo), nil, a)
}

// lowSum: low bits of a sum are the sum of the low bits.
func (tt *TermTable) lowSum(a *Term, w uint8) *Term {
	r := tt.Const(w, a.C)
	for i, x := range a.A {
		r = tt.addLin(r, tt.Extract(x, 0, w), a.K[i])
	}
	return r
}

func (tt *TermTable) zext0(a *Term, w uint8) *Term {
	if w == a.W {
		return a
	}
	if w < a.W {
		return tt.Extract(a, 0, w)
	}
	return tt.Concat(tt.Const(w-a.W, 0), a)
}

func (tt *TermTable) sext0(a *Term, w uint8) *Term {
	if w == a.W {
		return a
	}
	if w < a.W {
		return tt.Extract(a, 0, w)
	}
	if a.isConst() {
		return tt.Const(w, uint64(signed(a.C, a.W)))
	}
	if a.Op == OpConcat && a.A[0].isConst() && a.A[0].C>>(a.A[0].W-1)&1 == 0 {
		return tt.Concat(tt.Const(w-a.W, 0), a)
	}
	if a.Op == OpSext {
		return tt.Sext(a.A[0], w)
	}
	if a.Op == OpIte && (a.A[1].isConst() || a.A[2].isConst()) {
		return tt.Ite(a.A[0], tt.Sext(a.A[1], w), tt.Sext(a.A[2], w))
	}
	return tt.mk(OpSext, w, 0, nil, a)
}

func (tt *TermTable) lshrC0(a *Term, n uint) *Term {
	if n == 0 {
		return a
	}
	if n >= uint(a.W) {
		return tt.Const(a.W, 0)
	}
	return tt.Concat(tt.Const(uint8(n), 0), tt.Extract(a, uint8(n), a.W-uint8(n)))
}
func (tt *TermTable) shlC0(a *Term, n uint) *Term {
	if n == 0 {
		return a
	}
	if n >= uint(a.W) {
		return tt.Const(a.W, 0)
	}
	if a.Op == OpSum {
		return tt.addLin(tt.Const(a.W, 0), a, uint64(1)<<n)
	}
	return tt.Concat(tt.Extract(a, 0, a.W-uint8(n)), tt.Const(uint8(n), 0))
}
func (tt *TermTable) ashrC0(a *Term, n uint) *Term {
	if n == 0 {
		return a
	}
	if n >= uint(a.W) {
		n = uint(a.W) - 1
	}
	return tt.Sext(tt.Extract(a, uint8(n), a.W-uint8(n)), a.W)
}

// shift amounts b must have the same width as a (already adapted)
func (tt *TermTable) shl0(a, b *Term) *Term {
	if b.isConst() {
		return tt.ShlC(a, uint(min(b.C, 64)))
	}
	return tt.mk(OpShl, a.W, 0, nil, a, b)
}
func (tt *TermTable) lshr0(a, b *Term) *Term {
	if b.isConst() {
		return tt.LshrC(a, uint(min(b.C, 64)))
	}
	return tt.mk(OpLshr, a.W, 0, nil, a, b)
}
func (tt *TermTable) ashr0(a, b *Term) *Term {
	if b.isConst() {
		return tt.AshrC(a, uint(min(b.C, 64)))
	}
	return tt.mk(OpAshr, a.W, 0, nil, a, b)
}

func isConcatLike(t *Term) bool { return t.Op == OpConcat || t.Op == OpConst }

// segs splits two concat-like terms at common boundaries.
func (tt *TermTable) zipParts(a, b *Term, f func(x, y *Term) *Term) *Term {
	// boundaries from lsb
	cut := map[uint8]bool{}
	add := func(t *Term) {
		if t.Op != OpConcat {
			return
		}
		pos := t.W
		for _, p := range t.A {
			cut[pos] = true
			pos -= p.W
		}
	}
	add(a)
	add(b)
	cut[a.W] = true
	var cs []int
	for c := range cut {
		cs = append(cs, int(c))
	}
	sort.Ints(cs)
	var parts []*Term
	lo := 0
	for _, c := range cs {
		x := tt.Extract(a, uint8(lo), uint8(c-lo))
		y := tt.Extract(b, uint8(lo), uint8(c-lo))
		parts = append(parts, f(x, y))
		lo = c
	}
	// reverse: most significant first
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return tt.Concat(parts...)
}

func (tt *TermTable) and0(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return tt.Const(a.W, a.C&b.C)
		}
		if b.C == 0 {
			return b
		}
		if b.C == maskW(a.W) {
			return a
		}
		// split into runs
		var parts []*Term
		i := uint8(0)
		runs := 0
		for i < a.W {
			bit := b.C >> i & 1
			j := i
			for j < a.W && b.C>>j&1 == bit {
				j++
			}
			if bit == 1 {
				parts = append(parts, tt.Extract(a, i, j-i))
			} else {
				parts = append(parts, tt.Const(j-i, 0))
			}
			runs++
			i = j
		}
		if runs <= 5 {
			for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
				parts[i], parts[j] = parts[j], parts[i]
			}
			return tt.Concat(parts...)
		}
	}
	if a == b {
		return a
	}
	if a.Op == OpConcat && b.Op == OpConcat && (hasConstPart(a) || hasConstPart(b)) {
		if z := tt.zipTrivial(a, b, OpAnd); z != nil {
			return z
		}
	}
	if a.ID > b.ID && !b.isConst() {
		a, b = b, a
	}
	return tt.mk(OpAnd, a.W, 0, nil, a, b)
}

func hasConstPart(t *Term) bool {
	for _, p := range t.A {
		if p.isConst() {
			return true
		}
	}
	return false
}

// zipTrivial performs a bitwise op segment-wise if at every segment one side
// is constant (0 or all ones), returning nil otherwise.
func (tt *TermTable) zipTrivial(a, b *Term, op Op) *Term {
	ok := true
	r := tt.zipParts(a, b, func(x, y *Term) *Term {
		if !ok {
			return x
		}
		if x.isConst() {
			x, y = y, x
		}
		if !y.isConst() {
			if x == y && op != OpXor {
				return x
			}
			ok = false
			return x
		}
		if x.isConst() {
			switch op {
			case OpAnd:
				return tt.Const(x.W, x.C&y.C)
			case OpOr:
				return tt.Const(x.W, x.C|y.C)
			default:
				return tt.Const(x.W, x.C^y.C)
			}
		}
		full := y.C == maskW(y.W)
		switch op {
		case OpAnd:
			if y.C == 0 {
				return y
			}
			if full {
				return x
			}
			return tt.And(x, y)
		case OpOr:
			if y.C == 0 {
				return x
			}
			if full {
				return y
			}
			return tt.Or(x, y)
		default:
			if y.C == 0 {
				return x
			}
			return tt.Xor(x, y)
		}
	})
	if !ok {
		return nil
	}
	return r
}

func (tt *TermTable) or0(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return tt.Const(a.W, a.C|b.C)
		}
		if b.C == 0 {
			return a
		}
		if b.C == maskW(a.W) {
			return b
		}
		var parts []*Term
		runs := 0
		for i := uint8(0); i < a.W; {
			bit := b.C >> i & 1
			j := i
			for j < a.W && b.C>>j&1 == bit {
				j++
			}
			if bit == 1 {
				parts = append(parts, tt.Const(j-i, ^uint64(0)))
			} else {
				parts = append(parts, tt.Extract(a, i, j-i))
			}
			runs++
			i = j
		}
		if runs <= 5 {
			for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
				parts[i], parts[j] = parts[j], parts[i]
			}
			return tt.Concat(parts...)
		}
	}
	if a == b {
		return a
	}
	if isConcatLike(a) && isConcatLike(b) {
		if z := tt.zipTrivial(a, b, OpOr); z != nil {
			return z
		}
	} else if a.Op == OpConcat || b.Op == OpConcat {
		// e.g. x | concat(y,0..) where x is not split: only if every part of
		// the concat is zero outside ... leave alone
	}
	if a.ID > b.ID && !b.isConst() {
		a, b = b, a
	}
	return tt.mk(OpOr, a.W, 0, nil, a, b)
}

func (tt *TermTable) xor0(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return tt.Const(a.W, a.C^b.C)
		}
		if b.C == 0 {
			return a
		}
		if b.C == maskW(a.W) { // bitwise not = -x-1
			return tt.addLin(b, a, ^uint64(0))
		}
	}
	if a == b {
		return tt.Const(a.W, 0)
	}
	if isConcatLike(a) && isConcatLike(b) {
		if z := tt.zipTrivial(a, b, OpXor); z != nil {
			return z
		}
	}
	if d := tt.unZigzag(a, b); d != nil {
		return d
	}
	if d := tt.unZigzag(b, a); d != nil {
		return d
	}
	if a.ID > b.ID && !b.isConst() {
		a, b = b, a
	}
	return tt.mk(OpXor, a.W, 0, nil, a, b)
}

// zigzagOf returns d when x is (d<<1) ^ (d>>63).
func (tt *TermTable) zigzagOf(x *Term) *Term {
	if x.Op != OpXor {
		return nil
	}
	for i := 0; i < 2; i++ {
		y, s := x.A[i], x.A[1-i]
		if s.Op == OpSext && s.A[0].W == 1 && s.A[0].Op == OpExtract && s.A[0].C == uint64(x.W-1) {
			d := s.A[0].A[0]
			if d.W == x.W && (tt.ShlC(d, 1) == y || tt.Add(d, d) == y) {
				return d
			}
		}
	}
	return nil
}

// unZigzag recognises (x>>1) ^ -(x&1) for x = (d<<1) ^ (d>>63).
func (tt *TermTable) unZigzag(a, b *Term) *Term {
	w := a.W
	if b.Op != OpSext || a.Op != OpConcat || len(a.A) != 2 || !a.A[0].isC(0) {
		return nil
	}
	e, l := a.A[1], b.A[0]
	if e.Op != OpExtract || e.C != 1 || l.Op != OpExtract || l.W != 1 || l.C != 0 || e.A[0] != l.A[0] {
		return nil
	}
	x := e.A[0]
	if x.W != w {
		return nil
	}
	if k, ok := tt.zx[x]; a.A[0].W != 1 && (!ok || k > e.W+1) {
		return nil
	}
	return tt.zigzagOf(x)
}

// ---- booleans ----

func (tt *TermTable) not0(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(a.C == 0)
	}
	if a.Op == OpNot {
		return a.A[0]
	}
	return tt.mk(OpNot, 0, 0, nil, a)
}

func isNeg(a, b *Term) bool {
	return (a.Op == OpNot && a.A[0] == b) || (b.Op == OpNot && b.A[0] == a)
}

func (tt *TermTable) bAnd0(a, b *Term) *Term {
	if a.isConst() {
		if a.C == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.C == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if isNeg(a, b) {
		return tt.False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return tt.mk(OpBAnd, 0, 0, nil, a, b)
}

func (tt *TermTable) bOr0(a, b *Term) *Term {
	if a.isConst() {
		if a.C == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.C == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if isNeg(a, b) {
		return tt.True
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return tt.mk(OpBOr, 0, 0, nil, a, b)
}

func (tt *TermTable) ite0(c, a, b *Term) *Term {
	if c.isConst() {
		if c.C == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.Op == OpNot {
		return tt.Ite(c.A[0], b, a)
	}
	if a.W == 0 {
		if a.isConst() && b.isConst() {
			if a.C == 1 {
				return c
			}
			return tt.Not(c)
		}
		if a.isConst() {
			if a.C == 1 {
				return tt.BOr(c, b)
			}
			return tt.BAnd(tt.Not(c), b)
		}
		if b.isConst() {
			if b.C == 1 {
				return tt.BOr(tt.Not(c), a)
			}
			return tt.BAnd(c, a)
		}
	}
	if a.Op == OpIte && a.A[0] == c {
		return tt.Ite(c, a.A[1], b)
	}
	if b.Op == OpIte && b.A[0] == c {
		return tt.Ite(c, a, b.A[2])
	}
	if c.Op == OpSlt || c.Op == OpUlt {
		less, mn, mx := tt.Slt, OpSMin, OpSMax
		if c.Op == OpUlt {
			less, mn, mx = tt.Ult, OpUMin, OpUMax
			for _, x := range []*Term{a, b} {
				// both non-negative: stay with the order of the operands
				if (x.Op == OpSMin || x.Op == OpSMax) && tt.msbZero(a) && tt.msbZero(b) {
					mn, mx = OpSMin, OpSMax
				}
			}
		}
		if a.W == c.A[0].W || a.isConst() || b.isConst() {
			if less(a, b) == c {
				return tt.fold1(tt.Extreme(mn, a, b))
			}
			if less(b, a) == c {
				return tt.fold1(tt.Extreme(mx, a, b))
			}
		}
	}
	return tt.fold1(tt.mk(OpIte, a.W, 0, nil, c, a, b))
}

// Extreme is the n-ary minimum or maximum.
func (tt *TermTable) extreme0(op Op, as ...*Term) *Term {
	w := as[0].W
	var c *Term
	seen := map[*Term]bool{}
	var xs []*Term
	var add func(a *Term)
	add = func(a *Term) {
		switch {
		case a.Op == op:
			for _, x := range a.A {
				add(x)
			}
		case a.isConst():
			if c == nil {
				c = a
			} else {
				c = tt.Const(w, extreme(op, w, c.C, a.C))
			}
		case !seen[a]:
			seen[a] = true
			xs = append(xs, a)
		}
	}
	for _, a := range as {
		add(a)
	}
	if len(xs) == 0 {
		return c
	}
	if c != nil {
		top := maskW(w)
		if op == OpSMin || op == OpSMax {
			top >>= 1
		}
		neutral, dominant := top, (top+1)&maskW(w)
		if op == OpSMax || op == OpUMax {
			neutral, dominant = dominant, neutral
		}
		if c.C == dominant {
			return c
		}
		if c.C != neutral {
			xs = append(xs, c)
		}
	}
	if len(xs) == 1 {
		return xs[0]
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].ID < xs[j].ID })
	return tt.mk(op, w, 0, nil, xs...)
}

func extreme(op Op, w uint8, a, b uint64) uint64 {
	var less bool
	if op == OpSMin || op == OpSMax {
		less = signed(a, w) < signed(b, w)
	} else {
		less = a < b
	}
	if less == (op == OpSMin || op == OpUMin) {
		return a
	}
	return b
}

// among reports whether every operand of b (or b itself) is an operand of the extreme a.
func among(a, b *Term) bool {
	in := func(x *Term) bool {
		for _, y := range a.A {
			if x == y {
				return true
			}
		}
		return false
	}
	if b.Op == a.Op {
		for _, x := range b.A {
			if !in(x) {
				return false
			}
		}
		return true
	}
	return in(b)
}

// fold1 folds a conditional at most once per table.
func (tt *TermTable) fold1(t *Term) *Term {
	if r, ok := tt.folded[t]; ok {
		return r
	}
	r := tt.fold(t)
	tt.folded[t] = r
	return r
}

func (tt *TermTable) eq0(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.C == b.C)
	}
	if a.W == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.C == 1 {
				return a
			}
			return tt.Not(a)
		}
		if isNeg(a, b) {
			return tt.False
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return tt.mk(OpEq, 0, 0, nil, a, b)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.W == 1 && b.C == 1 {
			return tt.Not(tt.Eq(a, tt.Const(1, 0)))
		}
		if a.Op == OpXor {
			if d := tt.zigzagOf(a); d != nil {
				w := a.W
				return tt.Eq(d, tt.Const(w, b.C>>1^-(b.C&1)))
			}
		}
		switch a.Op {
		case OpConcat:
			r := tt.True
			pos := a.W
			for _, p := range a.A {
				pos -= p.W
				r = tt.BAnd(r, tt.Eq(p, tt.Const(p.W, b.C>>pos)))
				if r == tt.False {
					return r
				}
			}
			return r
		case OpIte:
			x, y := a.A[1], a.A[2]
			if x.isConst() || y.isConst() {
				return tt.Ite(a.A[0], tt.Eq(x, b), tt.Eq(y, b))
			}
		case OpSext:
			src := a.A[0]
			if uint64(signed(b.C&maskW(src.W), src.W))&maskW(a.W) != b.C {
				return tt.False
			}
			return tt.Eq(src, tt.Const(src.W, b.C))
		case OpSum:
			if len(a.A) == 1 {
				k := a.K[0]
				if k == 1 {
					return tt.Eq(a.A[0], tt.Const(a.W, b.C-a.C))
				}
				if k == maskW(a.W) {
					return tt.Eq(a.A[0], tt.Const(a.W, a.C-b.C))
				}
			} else if a.C != 0 {
				// normalise constant to the right
				l := lin{a.A, a.K, 0}
				return tt.Eq(tt.fromLin(l, a.W), tt.Const(a.W, b.C-a.C))
			}
			if len(a.A) == 2 && b.C == 0 && a.K[0] == 1 && a.K[1] == maskW(a.W) {
				return tt.Eq(a.A[0], a.A[1])
			}
			if len(a.A) == 2 && b.C == 0 && a.K[1] == 1 && a.K[0] == maskW(a.W) {
				return tt.Eq(a.A[0], a.A[1])
			}
		}
		if lo, hi := tt.urange(a, 0); b.C < lo || b.C > hi {
			return tt.False
		}
		return tt.mk(OpEq, 0, 0, nil, a, b)
	}
	// non-constant both
	if a.Op == OpSum || b.Op == OpSum {
		d := tt.Sub(a, b)
		if d.isConst() {
			return tt.Bool(d.C == 0)
		}
		if d.Op == OpSum {
			if d.size < a.size+b.size {
				if len(d.A) == 2 && d.C == 0 && ((d.K[0] == 1 && d.K[1] == maskW(a.W)) || (d.K[1] == 1 && d.K[0] == maskW(a.W))) {
					return tt.Eq(d.A[0], d.A[1])
				}
				return tt.Eq(d, tt.Const(a.W, 0))
			}
		} else {
			return tt.Eq(d, tt.Const(a.W, 0))
		}
	}
	if a.Op == OpConcat && b.Op == OpConcat {
		// split on identical boundaries if that makes progress
		if len(a.A) == len(b.A) {
			same := true
			for i := range a.A {
				if a.A[i].W != b.A[i].W {
					same = false
					break
				}
			}
			if same {
				r := tt.True
				for i := range a.A {
					r = tt.BAnd(r, tt.Eq(a.A[i], b.A[i]))
				}
				return r
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return tt.mk(OpEq, 0, 0, nil, a, b)
}

func (tt *TermTable) ult0(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.C < b.C)
	}
	if a.isConst() && a.C == 0 {
		return tt.Not(tt.Eq(b, a))
	}
	if b.isConst() && b.C == 1 {
		return tt.Eq(a, tt.Const(a.W, 0))
	}
	if b.Op == OpUMin && among(b, a) || a.Op == OpUMax && among(a, b) {
		return tt.False
	}
	la, ha := tt.urange(a, 0)
	lb, hb := tt.urange(b, 0)
	if ha < lb {
		return tt.True
	}
	if la >= hb {
		return tt.False
	}
	// strip common zero extension
	if a.Op == OpConcat && a.A[0].isC(0) && (b.isConst() || (b.Op == OpConcat && b.A[0].isC(0))) {
		k := a.A[0].W
		if b.Op == OpConcat {
			k = min(k, b.A[0].W)
		} else if uint8(bits.Len64(b.C)) > a.W-k {
			return tt.True
		}
		return tt.Ult(tt.Extract(a, 0, a.W-k), tt.Extract(b, 0, b.W-k))
	}
	if b.Op == OpConcat && b.A[0].isC(0) && a.isConst() {
		k := b.A[0].W
		if uint8(bits.Len64(a.C)) > a.W-k {
			return tt.False
		}
		return tt.Ult(tt.Extract(a, 0, a.W-k), tt.Extract(b, 0, b.W-k))
	}
	if b.isConst() && b.C == maskW(b.W) {
		return tt.Not(tt.Eq(a, b))
	}
	if a.isConst() && a.C == maskW(a.W)-1 {
		return tt.Eq(b, tt.Const(b.W, maskW(b.W)))
	}
	// power-of-two bound: high bits zero
	if b.isConst() && b.C&(b.C-1) == 0 && b.C != 0 {
		n := uint8(bits.TrailingZeros64(b.C))
		return tt.Eq(tt.Extract(a, n, a.W-n), tt.Const(a.W-n, 0))
	}
	if a.isConst() && (a.C+1)&a.C == 0 { // 2^n-1 < b  <=> high bits of b nonzero
		n := uint8(bits.Len64(a.C))
		return tt.Not(tt.Eq(tt.Extract(b, n, b.W-n), tt.Const(b.W-n, 0)))
	}
	if a.Op == OpIte && a.A[1].isConst() && a.A[2].isConst() && b.isConst() {
		return tt.Ite(a.A[0], tt.Ult(a.A[1], b), tt.Ult(a.A[2], b))
	}
	return tt.mk(OpUlt, 0, 0, nil, a, b)
}
func (tt *TermTable) Ule(a, b *Term) *Term { return tt.Not(tt.Ult(b, a)) }

func (tt *TermTable) slt0(a, b *Term) *Term {
	if a == b {
		return tt.False
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(signed(a.C, a.W) < signed(b.C, b.W))
	}
	if b.Op == OpSMin && among(b, a) || a.Op == OpSMax && among(a, b) {
		return tt.False
	}
	za, zb := tt.msbZero(a), tt.msbZero(b)
	if za && zb {
		return tt.Ult(a, b)
	}
	if b.isC(0) {
		return tt.Eq(tt.Extract(a, a.W-1, 1), tt.Const(1, 1))
	}
	if a.isConst() && a.C == maskW(a.W) { // -1 < b
		return tt.Eq(tt.Extract(b, b.W-1, 1), tt.Const(1, 0))
	}
	smax, smin := maskW(a.W)>>1, maskW(a.W)>>1+1
	if a.isC(smax) || b.isC(smin) {
		return tt.False
	}
	if b.isC(smax) {
		return tt.Not(tt.Eq(a, b))
	}
	if a.isC(smin) {
		return tt.Not(tt.Eq(a, b))
	}
	if a.Op == OpIte && a.A[1].isConst() && a.A[2].isConst() && b.isConst() {
		return tt.Ite(a.A[0], tt.Slt(a.A[1], b), tt.Slt(a.A[2], b))
	}
	if b.Op == OpIte && b.A[1].isConst() && b.A[2].isConst() && a.isConst() {
		return tt.Ite(b.A[0], tt.Slt(a, b.A[1]), tt.Slt(a, b.A[2]))
	}
	return tt.mk(OpSlt, 0, 0, nil, a, b)
}
func (tt *TermTable) Sle(a, b *Term) *Term { return tt.Not(tt.Slt(b, a)) }

// ---- floats ----

func fbits(f float64) uint64 { return math.Float64bits(f) }

func (tt *TermTable) F1(op Op, w uint8, a *Term) *Term {
	if a.isConst() {
		return tt.constF(op, w, a, nil)
	}
	if op == OpFFromS && tt.msbZero(a) {
		op = OpFFromU
	}
	if op == OpFFromU && a.Op == OpConcat && a.A[0].isC(0) {
		a = tt.Extract(a, 0, a.W-a.A[0].W)
	}
	if op == OpFFromU && a.Op == OpIte && a.A[1].isConst() && a.A[2].isConst() {
		return tt.Ite(a.A[0], tt.F1(op, w, a.A[1]), tt.F1(op, w, a.A[2]))
	}
	return tt.mk(op, w, 0, nil, a)
}

func (tt *TermTable) F2(op Op, a, b *Term) *Term {
	w := uint8(sortFP)
	switch op {
	case OpFLt, OpFLe, OpFEq, OpFSame:
		w = 0
	}
	if a.isConst() && b.isConst() {
		return tt.constF(op, w, a, b)
	}
	if op == OpFSame && a == b {
		return tt.True
	}
	if op == OpFDiv && b.isConst() && math.Float64frombits(b.C) == 1 {
		return a
	}
	if op == OpFSame && a.ID > b.ID {
		a, b = b, a
	}
	return tt.mk(op, w, 0, nil, a, b)
}

func evalF(op Op, w uint8, a, b uint64, aw uint8) uint64 {
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	bo := func(v bool) uint64 {
		if v {
			return 1
		}
		return 0
	}
	switch op {
	case OpFFromS:
		return fbits(float64(signed(a, aw)))
	case OpFFromU:
		return fbits(float64(a))
	case OpFFromBits:
		return a
	case OpFAdd:
		return fbits(x + y)
	case OpFSub:
		return fbits(x - y)
	case OpFMul:
		return fbits(x * y)
	case OpFDiv:
		return fbits(x / y)
	case OpFNeg:
		return fbits(-x)
	case OpFLt:
		return bo(x < y)
	case OpFLe:
		return bo(x <= y)
	case OpFEq:
		return bo(x == y)
	case OpFSame:
		return bo(a == b || (math.IsNaN(x) && math.IsNaN(y)))
	case OpFToS:
		return uint64(int64(x)) & maskW(w)
	case OpFToU:
		return uint64(x) & maskW(w)
	}
	panic("evalF")
}

func (tt *TermTable) constF(op Op, w uint8, a, b *Term) *Term {
	var bc uint64
	if b != nil {
		bc = b.C
	}
	return tt.Const(w, evalF(op, w, a.C, bc, a.W))
}

// ---- evaluation ----

type Model map[string]uint64

type evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func newEval(m Model) *evaluator { return &evaluator{m, map[*Term]uint64{}} }

func (e *evaluator) eval(t *Term) uint64 {
	if t.Op == OpConst {
		return t.C
	}
	if t.Op == OpVar || t.Op == OpFVar {
		return e.m[t.Name] & maskWF(t.W)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	m := maskWF(t.W)
	b := func(v bool) uint64 {
		if v {
			return 1
		}
		return 0
	}
	switch t.Op {
	case OpSum:
		r = t.C
		for i, a := range t.A {
			r += t.K[i] * e.eval(a)
		}
	case OpMul:
		r = e.eval(t.A[0]) * e.eval(t.A[1])
	case OpUDiv:
		x, y := e.eval(t.A[0]), e.eval(t.A[1])
		if y == 0 {
			r = m
		} else {
			r = x / y
		}
	case OpURem:
		x, y := e.eval(t.A[0]), e.eval(t.A[1])
		if y == 0 {
			r = x
		} else {
			r = x % y
		}
	case OpSDiv, OpSRem:
		x, y := signed(e.eval(t.A[0]), t.W), signed(e.eval(t.A[1]), t.W)
		if y == 0 {
			if t.Op == OpSDiv {
				r = m
				if x < 0 {
					r = 1
				}
			} else {
				r = uint64(x)
			}
		} else if y == -1 {
			if t.Op == OpSDiv {
				r = uint64(-x)
			}
		} else if t.Op == OpSDiv {
			r = uint64(x / y)
		} else {
			r = uint64(x % y)
		}
	case OpAnd:
		r = e.eval(t.A[0]) & e.eval(t.A[1])
	case OpOr:
		r = e.eval(t.A[0]) | e.eval(t.A[1])
	case OpXor:
		r = e.eval(t.A[0]) ^ e.eval(t.A[1])
	case OpShl:
		if n := e.eval(t.A[1]); n < 64 {
			r = e.eval(t.A[0]) << n
		}
	case OpLshr:
		if n := e.eval(t.A[1]); n < 64 {
			r = e.eval(t.A[0]) >> n
		}
	case OpAshr:
		n := e.eval(t.A[1])
		if n > 63 {
			n = 63
		}
		r = uint64(signed(e.eval(t.A[0]), t.W) >> n)
	case OpConcat:
		for _, a := range t.A {
			r = r<<a.W | e.eval(a)
		}
	case OpExtract:
		r = e.eval(t.A[0]) >> t.C
	case OpSext:
		r = uint64(signed(e.eval(t.A[0]), t.A[0].W))
	case OpIte:
		if e.eval(t.A[0]) == 1 {
			r = e.eval(t.A[1])
		} else {
			r = e.eval(t.A[2])
		}
	case OpSMin, OpSMax, OpUMin, OpUMax:
		r = e.eval(t.A[0])
		for _, a := range t.A[1:] {
			r = extreme(t.Op, t.W, r, e.eval(a))
		}
	case OpEq:
		r = b(e.eval(t.A[0]) == e.eval(t.A[1]))
	case OpUlt:
		r = b(e.eval(t.A[0]) < e.eval(t.A[1]))
	case OpSlt:
		r = b(signed(e.eval(t.A[0]), t.A[0].W) < signed(e.eval(t.A[1]), t.A[1].W))
	case OpNot:
		r = 1 - e.eval(t.A[0])
	case OpBAnd:
		r = e.eval(t.A[0]) & e.eval(t.A[1])
	case OpBOr:
		r = e.eval(t.A[0]) | e.eval(t.A[1])
	default:
		var y uint64
		if len(t.A) > 1 {
			y = e.eval(t.A[1])
		}
		r = evalF(t.Op, t.W, e.eval(t.A[0]), y, t.A[0].W)
	}
	r &= m
	e.memo[t] = r
	return r
}

func maskWF(w uint8) uint64 {
	if w == sortFP {
		return ^uint64(0)
	}
	return maskW(w)
}

// rebuild reconstructs t bottom-up, replacing the terms in sub (literals of
// the path condition and terms pinned to a constant).
func (tt *TermTable) rebuild(t *Term, sub map[*Term]*Term, memo map[*Term]*Term, budget *int) *Term {
	if t.Op == OpConst {
		return t
	}
	if r, ok := sub[t]; ok {
		return r
	}
	if t.Op == OpVar || t.Op == OpFVar {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	*budget--
	if *budget < 0 {
		return t
	}
	as := make([]*Term, len(t.A))
	ch := false
	if t.Op == OpIte {
		as[0] = tt.rebuild(t.A[0], sub, memo, budget)
		if as[0].isConst() {
			var r *Term
			if as[0].C == 1 {
				r = tt.rebuild(t.A[1], sub, memo, budget)
			} else {
				r = tt.rebuild(t.A[2], sub, memo, budget)
			}
			memo[t] = r
			return r
		}
	}
	for i, a := range t.A {
		as[i] = tt.rebuild(a, sub, memo, budget)
		if as[i] != a {
			ch = true
		}
	}
	if (t.Op == OpSMin || t.Op == OpSMax || t.Op == OpUMin || t.Op == OpUMax) && len(as) <= 8 {
		if ys := tt.undominated(t.Op, as, sub); len(ys) < len(as) {
			as, ch = ys, true
		}
	}
	r := t
	if ch {
		r = tt.remake(t, as)
		if x, ok := sub[r]; ok {
			r = x
		}
	}
	if tt.ord != nil && (r.Op == OpUlt || r.Op == OpSlt || r.Op == OpEq) {
		if v, ok := tt.ord.decide(r); ok {
			r = tt.Bool(v)
		} else if v, ok := tt.decideRange(r); ok {
			r = tt.Bool(v)
		}
	}
	if *budget >= 0 {
		memo[t] = r
	}
	return r
}

// undominated drops operands that a literal of the path puts on the wrong side of another one.
func (tt *TermTable) undominated(op Op, as []*Term, sub map[*Term]*Term) []*Term {
	less := tt.Slt
	if op == OpUMin || op == OpUMax {
		less = tt.Ult
	}
	var out []*Term
	gone := make([]bool, len(as))
	for i, a := range as {
		for j, b := range as {
			if i == j || gone[j] || gone[i] {
				continue
			}
			x, y := b, a // a min loses a when !(a < b)
			if op == OpSMin || op == OpUMin {
				x, y = a, b
			}
			l := tt.decided(less(x, y), sub)
			if l == tt.False {
				gone[i] = true
			}
			l = tt.decided(less(y, x), sub)
			if l == tt.True {
				gone[i] = true
			}
		}
		if !gone[i] {
			out = append(out, a)
		}
	}
	return out
}

func (tt *TermTable) decided(l *Term, sub map[*Term]*Term) *Term {
	if v, ok := sub[l]; ok {
		return v
	}
	if tt.ord != nil && (l.Op == OpUlt || l.Op == OpSlt) {
		if v, ok := tt.ord.decide(l); ok {
			return tt.Bool(v)
		}
	}
	return l
}

func (tt *TermTable) remake(t *Term, a []*Term) *Term {
	switch t.Op {
	case OpSum:
		r := tt.Const(t.W, t.C)
		for i := range a {
			r = tt.addLin(r, a[i], t.K[i])
		}
		return r
	case OpMul:
		return tt.Mul(a[0], a[1])
	case OpUDiv:
		return tt.UDiv(a[0], a[1])
	case OpSDiv:
		return tt.SDiv(a[0], a[1])
	case OpURem:
		return tt.URem(a[0], a[1])
	case OpSRem:
		return tt.SRem(a[0], a[1])
	case OpAnd:
		return tt.And(a[0], a[1])
	case OpOr:
		return tt.Or(a[0], a[1])
	case OpXor:
		return tt.Xor(a[0], a[1])
	case OpShl:
		return tt.Shl(a[0], a[1])
	case OpLshr:
		return tt.Lshr(a[0], a[1])
	case OpAshr:
		return tt.Ashr(a[0], a[1])
	case OpConcat:
		return tt.Concat(a...)
	case OpExtract:
		return tt.Extract(a[0], uint8(t.C), t.W)
	case OpSext:
		return tt.Sext(a[0], t.W)
	case OpIte:
		return tt.Ite(a[0], a[1], a[2])
	case OpSMin, OpSMax, OpUMin, OpUMax:
		return tt.Extreme(t.Op, a...)
	case OpEq:
		return tt.Eq(a[0], a[1])
	case OpUlt:
		return tt.Ult(a[0], a[1])
	case OpSlt:
		return tt.Slt(a[0], a[1])
	case OpNot:
		return tt.Not(a[0])
	case OpBAnd:
		return tt.BAnd(a[0], a[1])
	case OpBOr:
		return tt.BOr(a[0], a[1])
	}
	if len(a) == 1 {
		return tt.F1(t.Op, t.W, a[0])
	}
	return tt.F2(t.Op, a[0], a[1])
}

// ---- SMT-LIB printing ----

func smtSort(w uint8) string {
	switch w {
	case 0:
		return "Bool"
	case sortFP:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtConst(t *Term) string {
	switch t.W {
	case 0:
		if t.C == 1 {
			return "true"
		}
		return "false"
	case sortFP:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.C)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.C, t.W)
}

func smtName(name string) string {
	return "|" + strings.ReplaceAll(name, "|", "_") + "|"
}

// smtBody prints t in terms of the names of its arguments.
// If uf is set, float operations are printed as uninterpreted functions over
// 64-bit vectors.
func smtBody(t *Term, nm func(*Term) string) string {
	n := make([]string, len(t.A))
	for i, a := range t.A {
		n[i] = nm(a)
	}
	bin := func(op string) string { return "(" + op + " " + n[0] + " " + n[1] + ")" }
	switch t.Op {
	case OpSum:
		var parts []string
		m := maskW(t.W)
		for i, k := range t.K {
			switch {
			case k == 1:
				parts = append(parts, n[i])
			case k == m:
				parts = append(parts, "(bvneg "+n[i]+")")
			default:
				parts = append(parts, fmt.Sprintf("(bvmul (_ bv%d %d) %s)", k, t.W, n[i]))
			}
		}
		if t.C != 0 {
			parts = append(parts, fmt.Sprintf("(_ bv%d %d)", t.C, t.W))
		}
		r := parts[0]
		for _, p := range parts[1:] {
			r = "(bvadd " + r + " " + p + ")"
		}
		return r
	case OpMul:
		return bin("bvmul")
	case OpUDiv:
		return bin("bvudiv")
	case OpSDiv:
		return bin("bvsdiv")
	case OpURem:
		return bin("bvurem")
	case OpSRem:
		return bin("bvsrem")
	case OpAnd:
		return bin("bvand")
	case OpOr:
		return bin("bvor")
	case OpXor:
		return bin("bvxor")
	case OpShl:
		return bin("bvshl")
	case OpLshr:
		return bin("bvlshr")
	case OpAshr:
		return bin("bvashr")
	case OpConcat:
		r := n[len(n)-1]
		for i := len(n) - 2; i >= 0; i-- {
			r = "(concat " + n[i] + " " + r + ")"
		}
		return r
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.C+uint64(t.W)-1, t.C, n[0])
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, n[0])
	case OpIte:
		return "(ite " + n[0] + " " + n[1] + " " + n[2] + ")"
	case OpSMin, OpSMax, OpUMin, OpUMax:
		less := "bvslt"
		if t.Op == OpUMin || t.Op == OpUMax {
			less = "bvult"
		}
		var b strings.Builder
		prev := n[0]
		for i, x := range n[1:] {
			l, r := prev, x
			if t.Op == OpSMax || t.Op == OpUMax {
				l, r = x, prev
			}
			// the chain keeps the earlier operand when it is extreme
			fmt.Fprintf(&b, "(let ((m%d (ite (%s %s %s) %s %s))) ", i, less, l, r, prev, x)
			prev = fmt.Sprintf("m%d", i)
		}
		b.WriteString(prev)
		b.WriteString(strings.Repeat(")", len(n)-1))
		return b.String()
	case OpEq:
		return bin("=")
	case OpUlt:
		return bin("bvult")
	case OpSlt:
		return bin("bvslt")
	case OpNot:
		return "(not " + n[0] + ")"
	case OpBAnd:
		return bin("and")
	case OpBOr:
		return bin("or")
	case OpFFromS:
		return "((_ to_fp 11 53) RNE " + n[0] + ")"
	case OpFFromU:
		return "((_ to_fp_unsigned 11 53) RNE " + n[0] + ")"
	case OpFFromBits:
		return "((_ to_fp 11 53) " + n[0] + ")"
	case OpFAdd:
		return "(fp.add RNE " + n[0] + " " + n[1] + ")"
	case OpFSub:
		return "(fp.sub RNE " + n[0] + " " + n[1] + ")"
	case OpFMul:
		return "(fp.mul RNE " + n[0] + " " + n[1] + ")"
	case OpFDiv:
		return "(fp.div RNE " + n[0] + " " + n[1] + ")"
	case OpFNeg:
		return "(fp.neg " + n[0] + ")"
	case OpFLt:
		return bin("fp.lt")
	case OpFLe:
		return bin("fp.leq")
	case OpFEq:
		return bin("fp.eq")
	case OpFSame:
		return bin("=")
	case OpFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.W, n[0])
	case OpFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.W, n[0])
	}
	panic("smtBody")
}

// String renders t for debugging.
func (t *Term) String() string { return t.str(12) }

func (t *Term) str(d int) string {
	switch t.Op {
	case OpConst:
		return fmt.Sprintf("%#x", t.C)
	case OpVar, OpFVar:
		return t.Name
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.ID)
	}
	var b strings.Builder
	n := []string{OpSum: "sum", OpMul: "mul", OpUDiv: "udiv", OpAnd: "and", OpOr: "or", OpXor: "xor", OpShl: "shl", OpLshr: "lshr", OpAshr: "ashr",
		OpConcat: "concat", OpExtract: "extract", OpSext: "sext", OpIte: "ite", OpSMin: "smin", OpSMax: "smax", OpUMin: "umin", OpUMax: "umax", OpEq: "=", OpUlt: "ult", OpSlt: "slt", OpNot: "not", OpBAnd: "&&", OpBOr: "||", OpFToU: ""}[t.Op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.Op)
	}
	fmt.Fprintf(&b, "(%s:%d", n, t.W)
	if t.Op == OpExtract {
		fmt.Fprintf(&b, "[%d+:%d]", t.C, t.W)
	}
	for i, a := range t.A {
		b.WriteByte(' ')
		if t.Op == OpSum {
			fmt.Fprintf(&b, "%d*", int64(t.K[i]))
		}
		b.WriteString(a.str(d - 1))
	}
	if t.Op == OpSum {
		fmt.Fprintf(&b, " +%#x", t.C)
	}
	b.WriteByte(')')
	return b.String()
}
