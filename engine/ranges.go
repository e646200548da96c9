package main

import "math"

// Interval facts of the current path: signed bounds of 64-bit terms, taken
// from the path condition and propagated through sums, extremes and the
// zigzag form. They decide comparisons that follow from bounds alone.

type irange struct{ lo, hi int64 }

const rangeBig = int64(1) << 44

func (tt *TermTable) bound(t *Term, lo, hi int64) {
	if t.W != 64 {
		return
	}
	if tt.rng == nil {
		tt.rng = map[*Term]irange{}
	}
	r, ok := tt.rng[t]
	if !ok {
		r = irange{math.MinInt64, math.MaxInt64}
	}
	r.lo, r.hi = max(r.lo, lo), min(r.hi, hi)
	tt.rng[t] = r
}

// learnRange records the bounds in a literal.
func (tt *TermTable) learnRange(t *Term, b bool) {
	if t.Op != OpSlt && t.Op != OpUlt || t.A[0].W != 64 {
		return
	}
	x, y := t.A[0], t.A[1]
	switch {
	case t.Op == OpSlt && y.isConst() && b:
		if c := int64(y.C); c > math.MinInt64 {
			tt.bound(x, math.MinInt64, c-1)
		}
	case t.Op == OpSlt && y.isConst():
		tt.bound(x, int64(y.C), math.MaxInt64)
	case t.Op == OpSlt && x.isConst() && b:
		if c := int64(x.C); c < math.MaxInt64 {
			tt.bound(y, c+1, math.MaxInt64)
		}
	case t.Op == OpSlt && x.isConst():
		tt.bound(y, math.MinInt64, int64(x.C))
	case t.Op == OpUlt && y.isConst() && b && y.C > 0 && y.C <= 1<<63:
		tt.bound(x, 0, int64(y.C-1))
	case t.Op == OpUlt && x.isConst() && !b && x.C < 1<<63:
		tt.bound(y, 0, int64(x.C))
	}
}

// srange is a signed interval of t.
func (tt *TermTable) srange(t *Term, depth int) irange {
	full := irange{math.MinInt64, math.MaxInt64}
	if t.W != 64 || depth > 6 {
		return full
	}
	if t.Op == OpConst {
		return irange{int64(t.C), int64(t.C)}
	}
	r := full
	if f, ok := tt.rng[t]; ok {
		r = f
	}
	if k, ok := tt.zx[t]; ok && k < 63 {
		r.lo, r.hi = max(r.lo, 0), min(r.hi, int64(1)<<k-1)
	}
	meet := func(lo, hi int64) { r.lo, r.hi = max(r.lo, lo), min(r.hi, hi) }
	switch t.Op {
	case OpConcat:
		if lo, hi := tt.urange(t, 0); hi <= math.MaxInt64 {
			meet(int64(lo), int64(hi))
		}
	case OpIte:
		a, b := tt.srange(t.A[1], depth+1), tt.srange(t.A[2], depth+1)
		meet(min(a.lo, b.lo), max(a.hi, b.hi))
	case OpSMin, OpSMax:
		a := tt.srange(t.A[0], depth+1)
		if len(t.A) > 16 {
			break
		}
		for _, x := range t.A[1:] {
			b := tt.srange(x, depth+1)
			if t.Op == OpSMin {
				a = irange{min(a.lo, b.lo), min(a.hi, b.hi)}
			} else {
				a = irange{max(a.lo, b.lo), max(a.hi, b.hi)}
			}
		}
		meet(a.lo, a.hi)
	case OpXor:
		if d := tt.zigzagOf(t); d != nil {
			a := tt.srange(d, depth+1)
			if a.lo > -rangeBig && a.hi < rangeBig {
				lo := int64(0)
				if a.lo > 0 {
					lo = 2 * a.lo
				} else if a.hi < 0 {
					lo = -2*a.hi - 1
				}
				meet(lo, max(2*a.hi, -2*a.lo-1))
			}
		}
	case OpSum:
		if len(t.A) > 12 {
			break
		}
		lo, hi := int64(t.C), int64(t.C)
		ok := lo > -rangeBig && lo < rangeBig
		for i, x := range t.A {
			if !ok {
				break
			}
			k := int64(t.K[i])
			a := tt.srange(x, depth+1)
			if k < -1024 || k > 1024 || a.lo <= -rangeBig || a.hi >= rangeBig {
				ok = false
				break
			}
			if k >= 0 {
				lo, hi = lo+k*a.lo, hi+k*a.hi
			} else {
				lo, hi = lo+k*a.hi, hi+k*a.lo
			}
		}
		if ok {
			if len(t.A) == 2 && t.K[0] == -t.K[1] && tt.ord != nil {
				// a difference of ordered terms
				p, q := t.A[0], t.A[1] // k*(p-q)
				k := int64(t.K[0])
				if k < 0 {
					p, q, k = q, p, -k
				}
				a, b := tt.srange(p, depth+1), tt.srange(q, depth+1)
				for o := 0; o < 2; o++ {
					if o == 0 && (a.lo < 0 || b.lo < 0) {
						continue
					}
					if le, lt := tt.ord.reach(o, q, p); lt {
						lo = max(lo, k+int64(t.C))
					} else if le {
						lo = max(lo, int64(t.C))
					}
					if le, lt := tt.ord.reach(o, p, q); lt {
						hi = min(hi, -k+int64(t.C))
					} else if le {
						hi = min(hi, int64(t.C))
					}
				}
			}
			meet(lo, hi)
		}
	}
	return r
}

// decideRange returns the truth of a comparison if the bounds settle it.
func (tt *TermTable) decideRange(t *Term) (val, ok bool) {
	switch t.Op {
	case OpSlt, OpUlt:
		if t.A[0].W != 64 {
			return
		}
		a, b := tt.srange(t.A[0], 0), tt.srange(t.A[1], 0)
		if t.Op == OpUlt && (a.lo < 0 || b.lo < 0) {
			return
		}
		if a.hi < b.lo {
			return true, true
		}
		if a.lo >= b.hi {
			return false, true
		}
	case OpEq:
		x, y := t.A[0], t.A[1]
		if x.isConst() {
			x, y = y, x
		}
		if x.Op == OpExtract && y.isC(0) && x.A[0].W == 64 && uint8(x.C)+x.W == 64 && x.C < 63 {
			r := tt.srange(x.A[0], 0)
			top := int64(1) << x.C
			if r.lo >= 0 && r.hi < top {
				return true, true
			}
			if r.hi < 0 || r.lo >= top {
				return false, true
			}
			return
		}
		if x.W == 64 {
			a, b := tt.srange(x, 0), tt.srange(y, 0)
			if a.hi < b.lo || b.hi < a.lo {
				return false, true
			}
		}
	}
	return
}
