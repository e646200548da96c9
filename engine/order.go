package main

// Order facts of the current path: a graph of <= and < between terms, for the
// unsigned and the signed order. It decides comparisons that follow from the
// path condition by transitivity, without the solver.

type ordEdge struct {
	to     *Term
	strict bool
}

type orderFacts struct {
	g    [2]map[*Term][]ordEdge // 0 unsigned, 1 signed
	node [2]map[*Term]bool
}

func newOrder() *orderFacts {
	o := &orderFacts{}
	for i := range o.g {
		o.g[i] = map[*Term][]ordEdge{}
		o.node[i] = map[*Term]bool{}
	}
	return o
}

// touch adds the facts that come with a term: a minimum is below its operands.
func (o *orderFacts) touch(k int, t *Term) {
	if o.node[k][t] {
		return
	}
	o.node[k][t] = true
	mn, mx := OpUMin, OpUMax
	if k == 1 {
		mn, mx = OpSMin, OpSMax
	}
	if len(t.A) > 40 {
		return
	}
	switch t.Op {
	case mn:
		for _, a := range t.A {
			o.touch(k, a)
			o.g[k][t] = append(o.g[k][t], ordEdge{a, false})
		}
	case mx:
		for _, a := range t.A {
			o.touch(k, a)
			o.g[k][a] = append(o.g[k][a], ordEdge{t, false})
		}
	case OpConst:
		for c := range o.node[k] {
			if c != t && c.Op == OpConst && c.W == t.W {
				lo, hi := c, t
				if k == 0 && t.C < c.C || k == 1 && signed(t.C, t.W) < signed(c.C, c.W) {
					lo, hi = t, c
				}
				o.g[k][lo] = append(o.g[k][lo], ordEdge{hi, true})
			}
		}
	}
}

// le records a <= b (a < b when strict).
func (o *orderFacts) le(k int, a, b *Term, strict bool) {
	o.touch(k, a)
	o.touch(k, b)
	o.g[k][a] = append(o.g[k][a], ordEdge{b, strict})
}

// reach reports whether a <= b follows, and whether a < b does.
func (o *orderFacts) reach(k int, a, b *Term) (le, lt bool) { return o.reachD(k, a, b, 0) }

// reachD: a maximum is below b when every operand is, a minimum above a when every operand is.
func (o *orderFacts) reachD(k int, a, b *Term, depth int) (le, lt bool) {
	if a == b {
		return true, false
	}
	mn, mx := OpUMin, OpUMax
	if k == 1 {
		mn, mx = OpSMin, OpSMax
	}
	if le, lt = o.walk(k, a, b); lt {
		return
	}
	if depth > 2 {
		return
	}
	if a.Op == mx && len(a.A) <= 12 {
		allLe, allLt := true, true
		for _, x := range a.A {
			l, s := o.reachD(k, x, b, depth+1)
			allLe, allLt = allLe && l, allLt && s
			if !allLe {
				break
			}
		}
		le, lt = le || allLe, lt || allLe && allLt
	}
	if !lt && b.Op == mn && len(b.A) <= 12 {
		allLe, allLt := true, true
		for _, x := range b.A {
			l, s := o.reachD(k, a, x, depth+1)
			allLe, allLt = allLe && l, allLt && s
			if !allLe {
				break
			}
		}
		le, lt = le || allLe, lt || allLe && allLt
	}
	return
}

func (o *orderFacts) walk(k int, a, b *Term) (le, lt bool) {
	if len(o.g[k]) == 0 {
		return
	}
	mn, mx := OpUMin, OpUMax
	if k == 1 {
		mn, mx = OpSMin, OpSMax
	}
	type st struct {
		t      *Term
		strict bool
	}
	seen := map[*Term]uint8{} // 1: reached, 2: reached strictly
	var q []st
	push := func(t *Term, strict bool) {
		v := uint8(1)
		if strict {
			v = 2
		}
		if seen[t] >= v {
			return
		}
		seen[t] = v
		q = append(q, st{t, strict})
	}
	push(a, false)
	if a.Op == mn { // a itself may not be in the graph
		for _, x := range a.A {
			push(x, false)
		}
	}
	final := map[*Term]bool{b: true}
	if b.Op == mx {
		for _, x := range b.A {
			final[x] = true
		}
	}
	for len(q) > 0 && len(seen) < 300 {
		c := q[len(q)-1]
		q = q[:len(q)-1]
		if final[c.t] {
			le = true
			if c.strict {
				return true, true
			}
		}
		for _, e := range o.g[k][c.t] {
			push(e.to, c.strict || e.strict)
		}
	}
	return
}

// learn records a literal.
func (o *orderFacts) learn(t *Term, b bool) {
	switch t.Op {
	case OpUlt, OpSlt:
		k := 0
		if t.Op == OpSlt {
			k = 1
		}
		if b {
			o.le(k, t.A[0], t.A[1], true)
		} else {
			o.le(k, t.A[1], t.A[0], false)
		}
	case OpEq:
		if b && t.A[0].W > 1 && t.A[0].W <= 64 {
			for k := range o.g {
				o.le(k, t.A[0], t.A[1], false)
				o.le(k, t.A[1], t.A[0], false)
			}
		}
	}
}

// decide returns the truth of a comparison if it follows.
func (o *orderFacts) decide(t *Term) (val, ok bool) {
	switch t.Op {
	case OpUlt, OpSlt:
		k := 0
		if t.Op == OpSlt {
			k = 1
		}
		if _, lt := o.reach(k, t.A[0], t.A[1]); lt {
			return true, true
		}
		if le, _ := o.reach(k, t.A[1], t.A[0]); le {
			return false, true
		}
	case OpEq:
		if t.A[0].W <= 1 || t.A[0].W > 64 {
			return
		}
		for k := range o.g {
			if len(o.g[k]) == 0 {
				continue
			}
			le1, lt1 := o.reach(k, t.A[0], t.A[1])
			if lt1 {
				return false, true
			}
			le2, lt2 := o.reach(k, t.A[1], t.A[0])
			if lt2 {
				return false, true
			}
			if le1 && le2 {
				return true, true
			}
		}
	}
	return
}
