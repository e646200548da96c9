package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"regexp"
	"strconv"
	"strings"
)

func (m *M) binop(fr *Frame, in *Instr, a, b Value) Value {
	switch in.k {
	case kInt:
		if a.R == nil && b.R == nil {
			return m.binConc(fr, in, a.N, b.N)
		}
		return m.binSym(fr, in, a, b)
	case kBool:
		if a.R == nil && b.R == nil {
			switch in.tok {
			case token.EQL:
				return boolV(a.N == b.N)
			case token.NEQ:
				return boolV(a.N != b.N)
			case token.AND:
				return boolV(a.N&b.N != 0)
			case token.OR:
				return boolV(a.N|b.N != 0)
			}
		}
		x, y := m.term(a, 0), m.term(b, 0)
		switch in.tok {
		case token.EQL:
			return fromTerm(m.tt.Eq(x, y))
		case token.NEQ:
			return fromTerm(m.tt.Not(m.tt.Eq(x, y)))
		case token.AND:
			return fromTerm(m.tt.BAnd(x, y))
		case token.OR:
			return fromTerm(m.tt.BOr(x, y))
		}
	case kFloat:
		return m.binFloat(in, a, b)
	case kString:
		return m.binStr(fr, in, a, b)
	case kRef, kAgg:
		t := m.equal(fr, a, b, in.t2)
		if in.tok == token.NEQ {
			t = m.tt.Not(t)
		}
		return fromTerm(t)
	}
	panic(unsupported(fmt.Sprintf("binop %s on %s", in.tok, in.t2)))
}

func (m *M) binConc(fr *Frame, in *Instr, a, b uint64) Value {
	w := in.w
	mk := maskW(w)
	switch in.tok {
	case token.ADD:
		return conc((a + b) & mk)
	case token.SUB:
		return conc((a - b) & mk)
	case token.MUL:
		return conc((a * b) & mk)
	case token.QUO, token.REM:
		if b == 0 {
			if m.spec != nil {
				panic(specAbort{"div"})
			}
			m.rtPanic(fr, "integer divide by zero")
		}
		if in.sgn {
			x, y := signed(a, w), signed(b, w)
			if in.tok == token.QUO {
				if y == -1 {
					return conc(uint64(-x) & mk)
				}
				return conc(uint64(x/y) & mk)
			}
			if y == -1 {
				return conc(0)
			}
			return conc(uint64(x%y) & mk)
		}
		if in.tok == token.QUO {
			return conc(a / b)
		}
		return conc(a % b)
	case token.AND:
		return conc(a & b)
	case token.OR:
		return conc(a | b)
	case token.XOR:
		return conc(a ^ b)
	case token.AND_NOT:
		return conc(a &^ b)
	case token.SHL, token.SHR:
		if in.sgn2 && signed(b, in.w2) < 0 {
			m.rtPanic(fr, "negative shift amount")
		}
		if in.tok == token.SHL {
			if b >= uint64(w) {
				return conc(0)
			}
			return conc(a << b & mk)
		}
		if in.sgn {
			if b >= uint64(w) {
				b = uint64(w) - 1
			}
			return conc(uint64(signed(a, w)>>b) & mk)
		}
		if b >= uint64(w) {
			return conc(0)
		}
		return conc(a >> b)
	case token.EQL:
		return boolV(a == b)
	case token.NEQ:
		return boolV(a != b)
	}
	var lt, eq bool
	eq = a == b
	if in.sgn {
		lt = signed(a, w) < signed(b, w)
	} else {
		lt = a < b
	}
	switch in.tok {
	case token.LSS:
		return boolV(lt)
	case token.LEQ:
		return boolV(lt || eq)
	case token.GTR:
		return boolV(!lt && !eq)
	case token.GEQ:
		return boolV(!lt)
	}
	panic(unsupported("binop " + in.tok.String()))
}

func (m *M) binSym(fr *Frame, in *Instr, a, b Value) Value {
	tt := m.tt
	w := in.w
	if in.tok == token.SHL || in.tok == token.SHR {
		x := m.term(a, w)
		y := m.term(b, in.w2)
		if in.sgn2 && !tt.msbZero(y) {
			if m.spec != nil {
				panic(specAbort{"shift"})
			}
			if !m.decide(tt.Sle(tt.Const(in.w2, 0), y)) {
				m.rtPanic(fr, "negative shift amount")
			}
		}
		var big *Term = tt.False
		if in.w2 > w {
			big = tt.Not(tt.Ult(y, tt.Const(in.w2, uint64(w))))
			y = tt.Extract(y, 0, w)
		} else if in.w2 < w {
			y = tt.Zext(y, w)
		}
		var r, o *Term
		switch {
		case in.tok == token.SHL:
			r, o = tt.Shl(x, y), tt.Const(w, 0)
		case in.sgn:
			r = tt.Ashr(x, y)
			o = tt.AshrC(x, uint(w)-1)
		default:
			r, o = tt.Lshr(x, y), tt.Const(w, 0)
		}
		return fromTerm(tt.Ite(big, o, r))
	}
	x, y := m.term(a, w), m.term(b, w)
	switch in.tok {
	case token.ADD:
		return fromTerm(tt.Add(x, y))
	case token.SUB:
		return fromTerm(tt.Sub(x, y))
	case token.MUL:
		return fromTerm(tt.Mul(x, y))
	case token.QUO, token.REM:
		if !y.isConst() || y.C == 0 {
			if m.spec != nil {
				panic(specAbort{"div"})
			}
			if m.decide(tt.Eq(y, tt.Const(w, 0))) {
				m.rtPanic(fr, "integer divide by zero")
			}
		}
		switch {
		case in.sgn && in.tok == token.QUO:
			return fromTerm(tt.SDiv(x, y))
		case in.sgn:
			return fromTerm(tt.SRem(x, y))
		case in.tok == token.QUO:
			return fromTerm(tt.UDiv(x, y))
		}
		return fromTerm(tt.URem(x, y))
	case token.AND:
		return fromTerm(tt.And(x, y))
	case token.OR:
		return fromTerm(tt.Or(x, y))
	case token.XOR:
		return fromTerm(tt.Xor(x, y))
	case token.AND_NOT:
		return fromTerm(tt.And(x, tt.Xor(y, tt.Const(w, ^uint64(0)))))
	case token.EQL:
		return fromTerm(tt.Eq(x, y))
	case token.NEQ:
		return fromTerm(tt.Not(tt.Eq(x, y)))
	}
	lt := tt.Ult
	if in.sgn {
		lt = tt.Slt
	}
	switch in.tok {
	case token.LSS:
		return fromTerm(lt(x, y))
	case token.LEQ:
		return fromTerm(tt.Not(lt(y, x)))
	case token.GTR:
		return fromTerm(lt(y, x))
	case token.GEQ:
		return fromTerm(tt.Not(lt(x, y)))
	}
	panic(unsupported("binop " + in.tok.String()))
}

func (m *M) binFloat(in *Instr, a, b Value) Value {
	if a.R == nil && b.R == nil {
		x, y := math.Float64frombits(a.N), math.Float64frombits(b.N)
		var f float64
		switch in.tok {
		case token.ADD:
			f = x + y
		case token.SUB:
			f = x - y
		case token.MUL:
			f = x * y
		case token.QUO:
			f = x / y
		case token.EQL:
			return boolV(x == y)
		case token.NEQ:
			return boolV(x != y)
		case token.LSS:
			return boolV(x < y)
		case token.LEQ:
			return boolV(x <= y)
		case token.GTR:
			return boolV(x > y)
		case token.GEQ:
			return boolV(x >= y)
		}
		if in.x == "f32" {
			f = float64(float32(f))
		}
		return conc(math.Float64bits(f))
	}
	if in.x == "f32" {
		panic(unsupported("symbolic float32"))
	}
	x, y := m.term(a, sortFP), m.term(b, sortFP)
	tt := m.tt
	switch in.tok {
	case token.ADD:
		return fromTerm(tt.F2(OpFAdd, x, y))
	case token.SUB:
		return fromTerm(tt.F2(OpFSub, x, y))
	case token.MUL:
		return fromTerm(tt.F2(OpFMul, x, y))
	case token.QUO:
		return fromTerm(tt.F2(OpFDiv, x, y))
	case token.EQL:
		return fromTerm(tt.F2(OpFEq, x, y))
	case token.NEQ:
		return fromTerm(tt.Not(tt.F2(OpFEq, x, y)))
	case token.LSS:
		return fromTerm(tt.F2(OpFLt, x, y))
	case token.LEQ:
		return fromTerm(tt.F2(OpFLe, x, y))
	case token.GTR:
		return fromTerm(tt.F2(OpFLt, y, x))
	case token.GEQ:
		return fromTerm(tt.F2(OpFLe, y, x))
	}
	panic(unsupported("float op"))
}

func (m *M) binStr(fr *Frame, in *Instr, a, b Value) Value {
	switch in.tok {
	case token.ADD:
		if a.R == nil {
			return b
		}
		if b.R == nil {
			return a
		}
		x, ok1 := a.R.(string)
		y, ok2 := b.R.(string)
		if ok1 && ok2 {
			return Value{R: x + y}
		}
		xb, yb := strBytes(a), strBytes(b)
		n := make([]Value, 0, len(xb)+len(yb))
		n = append(append(n, xb...), yb...)
		return Value{R: &SymStr{n}}
	case token.EQL:
		return fromTerm(m.strEq(a, b))
	case token.NEQ:
		return fromTerm(m.tt.Not(m.strEq(a, b)))
	}
	lt := func(a, b Value) *Term {
		x, y := strBytes(a), strBytes(b)
		n := min(len(x), len(y))
		r := m.tt.Bool(len(x) < len(y))
		for i := n - 1; i >= 0; i-- {
			p, q := m.term(x[i], 8), m.term(y[i], 8)
			r = m.tt.BOr(m.tt.Ult(p, q), m.tt.BAnd(m.tt.Eq(p, q), r))
		}
		return r
	}
	switch in.tok {
	case token.LSS:
		return fromTerm(lt(a, b))
	case token.LEQ:
		return fromTerm(m.tt.Not(lt(b, a)))
	case token.GTR:
		return fromTerm(lt(b, a))
	case token.GEQ:
		return fromTerm(m.tt.Not(lt(a, b)))
	}
	panic(unsupported("string op"))
}

// strEq: equality of strings, formatted numbers compared as tokens.
func (m *M) strEq(a, b Value) *Term {
	if a.R == nil && b.R == nil {
		return m.tt.True
	}
	x, ok1 := a.R.(string)
	y, ok2 := b.R.(string)
	if ok1 && ok2 {
		return m.tt.Bool(x == y)
	}
	if (a.R == nil && ok2) || (b.R == nil && ok1) {
		return m.tt.Bool(len(x)+len(y) == 0)
	}
	xb, yb := strBytes(a), strBytes(b)
	hasTok := func(s []Value) bool {
		for _, v := range s {
			if _, ok := v.R.(*Tok); ok {
				return true
			}
		}
		return false
	}
	if hasTok(xb) || hasTok(yb) {
		if len(xb) == 0 || len(yb) == 0 {
			return m.tt.False
		}
		if f, ok := tokMismatch(xb, yb); ok && f {
			return m.tt.False
		}
		// a different beginning or end
		differ := func(p, q Value) (stop, diff bool) {
			t1, k1 := p.R.(*Tok)
			t2, k2 := q.R.(*Tok)
			if k1 && k2 {
				return true, false
			}
			if k2 {
				p, q, t1, k1 = q, p, t2, true
			}
			if k1 {
				digits := "0123456789-+"
				if t1.t.W == sortFP {
					digits += ".eInfNa"
				}
				return true, t1.verb == strings.TrimLeft(t1.verb, " ") && q.R == nil && strings.IndexByte(digits, byte(q.N)) < 0 && (t1.verb == "d" || t1.t.W == sortFP)
			}
			return false, p.R == nil && q.R == nil && p.N != q.N
		}
		for i := 0; i < len(xb) && i < len(yb); i++ {
			if stop, diff := differ(xb[i], yb[i]); diff {
				return m.tt.False
			} else if stop {
				break
			}
		}
		for i, j := len(xb)-1, len(yb)-1; i >= 0 && j >= 0; i, j = i-1, j-1 {
			if stop, diff := differ(xb[i], yb[j]); diff {
				return m.tt.False
			} else if stop {
				break
			}
		}
		// token-wise comparison if the shapes agree, otherwise expand
		xb, yb = m.alignToks(xb, yb)
		if len(xb) == len(yb) {
			r := m.tt.True
			ok := true
			for i := range xb {
				t1, k1 := xb[i].R.(*Tok)
				t2, k2 := yb[i].R.(*Tok)
				if k1 && k2 && t1.verb != t2.verb && (t1.t.W == sortFP) != (t2.t.W == sortFP) {
					// an integer next to a float without decimals: the same text if each converts to the other
					f, d := t1, t2
					if d.t.W == sortFP {
						f, d = d, f
					}
					if d.verb == "d" && d.t.W == 64 && d.sgn && f.verb == ".0f" {
						r = m.tt.BAnd(r, m.tt.BAnd(m.tt.F2(OpFEq, f.t, m.tt.F1(OpFFromS, sortFP, d.t)), m.tt.Eq(d.t, m.tt.F1(OpFToS, 64, f.t))))
						continue
					}
				}
				dec := k1 && k2 && t1.verb == "d" && t2.verb == "d" && t1.t.W != sortFP && t2.t.W != sortFP
				if k1 != k2 || (k1 && !dec && (t1.verb != t2.verb || t1.sgn != t2.sgn || t1.t.W != t2.t.W)) {
					ok = false
					break
				}
				if dec && (t1.sgn != t2.sgn || t1.t.W != t2.t.W) {
					wide := func(t *Tok) *Term {
						if t.sgn {
							return m.tt.Sext(t.t, 64)
						}
						return m.tt.Zext(t.t, 64)
					}
					p, q := wide(t1), wide(t2)
					r = m.tt.BAnd(r, m.tt.Eq(p, q))
					if t1.sgn != t2.sgn { // the same bits read the same only if not negative
						r = m.tt.BAnd(r, m.tt.Not(m.tt.Slt(p, m.tt.Const(64, 0))))
					}
				} else if k1 {
					if t1.t.W == sortFP {
						r = m.tt.BAnd(r, m.tt.F2(OpFSame, t1.t, t2.t))
					} else {
						r = m.tt.BAnd(r, m.tt.Eq(t1.t, t2.t))
					}
				} else {
					p, q := m.term(xb[i], 8), m.term(yb[i], 8)
					if p.isConst() && q.isConst() && p.C != q.C {
						ok = false
						break
					}
					r = m.tt.BAnd(r, m.tt.Eq(p, q))
				}
			}
			if ok {
				return r
			}
		}
		if m.spec != nil {
			panic(specAbort{"token"})
		}
		if concDebug {
			sh := func(v []Value) string {
				o := ""
				for _, b := range v {
					switch x := b.R.(type) {
					case *Tok:
						o += fmt.Sprintf("<%s %v %d>", x.verb, x.sgn, x.t.W)
					case nil:
						o += string(rune(b.N))
					default:
						o += "?"
					}
				}
				return o
			}
			fmt.Fprintf(os.Stderr, "expand %q %q\n", sh(xb), sh(yb))
		}
		return m.strEq(m.expandToks(a, yb), m.expandToks(b, xb))
	}
	if len(xb) != len(yb) {
		return m.tt.False
	}
	r := m.tt.True
	for i := range xb {
		r = m.tt.BAnd(r, m.tt.Eq(m.term(xb[i], 8), m.term(yb[i], 8)))
		if r == m.tt.False {
			break
		}
	}
	return r
}

// expandToks replaces formatted symbolic numbers by the text of feasible
// values, forking over them. A float is compared with the number that other,
// the string it is compared with, has in its place.
func (m *M) expandToks(v Value, other []Value) Value {
	var out []Value
	for _, b := range strBytes(v) {
		t, ok := b.R.(*Tok)
		if !ok {
			out = append(out, b)
			continue
		}
		if t.t.W == sortFP {
			i := len(out)
			j := i
			var txt []byte
			for j < len(other) && other[j].R == nil && strings.IndexByte("0123456789-.", byte(other[j].N)) >= 0 {
				txt = append(txt, byte(other[j].N))
				j++
			}
			f, err := strconv.ParseFloat(string(txt), 64)
			if err != nil || fmt.Sprintf("%"+t.verb, f) != string(txt) || !m.decide(m.tt.F2(OpFSame, t.t, m.tt.Const(sortFP, math.Float64bits(f)))) {
				panic(unsupported("comparison of differently formatted symbolic floats"))
			}
			out = append(out, strBytes(strV(string(txt)))...)
			continue
		}
		n := m.concretize(fromTerm(t.t), 8, "formatted number")
		var s string
		if t.sgn {
			s = fmt.Sprintf("%"+t.verb, signed(n, t.t.W))
		} else {
			s = fmt.Sprintf("%"+t.verb, n)
		}
		out = append(out, strBytes(strV(s))...)
	}
	return symStr(out)
}

// equal compares two values of type t.
func (m *M) equal(fr *Frame, a, b Value, t types.Type) *Term {
	switch kindOf(t) {
	case kInt:
		w, _, _ := intInfo(t)
		return m.tt.Eq(m.term(a, w), m.term(b, w))
	case kBool:
		return m.tt.Eq(m.term(a, 0), m.term(b, 0))
	case kFloat:
		return m.tt.F2(OpFEq, m.term(a, sortFP), m.term(b, sortFP))
	case kString:
		return m.strEq(a, b)
	case kAgg:
		x, y := a.R.(*Agg), b.R.(*Agg)
		r := m.tt.True
		switch u := under(t).(type) {
		case *types.Struct:
			for i := range x.e {
				r = m.tt.BAnd(r, m.equal(fr, x.e[i], y.e[i], u.Field(i).Type()))
			}
		case *types.Array:
			for i := range x.e {
				r = m.tt.BAnd(r, m.equal(fr, x.e[i], y.e[i], u.Elem()))
			}
		}
		return r
	}
	if _, ok := under(t).(*types.Interface); ok {
		x, _ := a.R.(*Iface)
		y, _ := b.R.(*Iface)
		if x == nil || y == nil {
			return m.tt.Bool(x == nil && y == nil)
		}
		if x == y {
			return m.tt.True
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return m.tt.False
		}
		return m.equal(fr, x.v, y.v, x.t)
	}
	if a.R == nil || b.R == nil {
		return m.tt.Bool(a.R == nil && b.R == nil && a.N == b.N)
	}
	if x, ok := a.R.(*Slice); ok {
		_ = x
		return m.tt.False
	}
	if x, ok := a.R.(*Closure); ok {
		_ = x
		return m.tt.False
	}
	return m.tt.Bool(a.R == b.R)
}

// ---- builtins ----

func (m *M) builtin(fr *Frame, in *Instr, args []Value) Value {
	switch in.bltn {
	case "len":
		switch r := args[0].R.(type) {
		case nil:
			return conc(0)
		case string:
			return conc(uint64(len(r)))
		case *SymStr:
			return conc(uint64(strLen(args[0])))
		case *Slice:
			return conc(uint64(len(r.s)))
		case *MapObj:
			return conc(uint64(r.n))
		case *ChanObj:
			return conc(uint64(len(r.buf)))
		case *Agg:
			return conc(uint64(len(r.e)))
		case *Value:
			return conc(uint64(len(r.R.(*Agg).e)))
		}
	case "cap":
		switch r := args[0].R.(type) {
		case nil:
			return conc(0)
		case *Slice:
			return conc(uint64(cap(r.s)))
		case *ChanObj:
			return conc(uint64(r.cap))
		case *Agg:
			return conc(uint64(len(r.e)))
		case *Value:
			return conc(uint64(len(r.R.(*Agg).e)))
		}
	case "append":
		return m.appendB(fr, in, args)
	case "copy":
		dst, _ := args[0].R.(*Slice)
		var src []Value
		switch r := args[1].R.(type) {
		case *Slice:
			src = r.s
		case string, *SymStr:
			src = strBytes(args[1])
		}
		if dst == nil {
			return conc(0)
		}
		n := min(len(dst.s), len(src))
		m.copyCells(fr, dst.s[:n], src[:n])
		return conc(uint64(n))
	case "delete":
		mo, _ := args[0].R.(*MapObj)
		m.mapDelete(fr, mo, args[1], under(in.t2).(*types.Map).Key())
		return Value{}
	case "clear":
		switch r := args[0].R.(type) {
		case *MapObj:
			*r = MapObj{index: map[string]int{}}
		case *Slice:
			el := under(in.t2).(*types.Slice).Elem()
			for i := range r.s {
				m.store(fr, &r.s[i], zero(el), 0)
			}
		}
		return Value{}
	case "close":
		c, _ := args[0].R.(*ChanObj)
		if c == nil {
			panic(&goPanic{msg: "close of nil channel", runtime: true})
		}
		if c.closed {
			panic(&goPanic{msg: "close of closed channel", runtime: true, v: Value{R: &Iface{types.Typ[types.String], strV("close of closed channel")}}})
		}
		c.closed = true
		c.closVC = m.release(m.cur)
		return Value{}
	case "recover":
		o := fr.owner
		if o != nil && fr.unwound && o.pan != nil && !o.pan.recovered {
			o.pan.recovered = true
			return o.pan.v
		}
		return Value{}
	case "panic":
		panic(&goPanic{v: args[0], msg: m.panicText(args[0]), pos: in.pos})
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = m.minmax(in, r, a)
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].R == nil {
			m.rtPanic(fr, "value method called using nil pointer")
		}
		return args[0]
	case "SliceData", "StringData":
		if args[0].R == nil {
			return Value{}
		}
		if s, ok := args[0].R.(*Slice); ok {
			return Value{R: &unsafeData{s}}
		}
		return Value{R: &unsafeData{&Slice{strBytes(args[0])}}}
	case "String":
		if d, ok := args[0].R.(*unsafeData); ok {
			n := int(m.concretize(args[1], 4096, "unsafe.String"))
			c := make([]Value, n)
			copy(c, d.s.s[:n])
			return symStr(c)
		}
		if args[0].R == nil {
			return Value{}
		}
	case "Slice":
		if d, ok := args[0].R.(*unsafeData); ok {
			n := int(m.concretize(args[1], 4096, "unsafe.Slice"))
			return Value{R: &Slice{d.s.s[:n]}}
		}
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T in %s", in.bltn, firstR(args), fr.fn.name)))
}

type unsafeData struct{ s *Slice }

func firstR(a []Value) any {
	if len(a) > 0 {
		return a[0].R
	}
	return nil
}

func (m *M) minmax(in *Instr, a, b Value) Value {
	switch in.k {
	case kInt:
		if a.R == nil && b.R == nil {
			lt := a.N < b.N
			if in.sgn {
				lt = signed(a.N, in.w) < signed(b.N, in.w)
			}
			if lt == (in.bltn == "min") {
				return a
			}
			return b
		}
		x, y := m.term(a, in.w), m.term(b, in.w)
		var lt *Term
		if in.sgn {
			lt = m.tt.Slt(x, y)
		} else {
			lt = m.tt.Ult(x, y)
		}
		if in.bltn == "min" {
			return fromTerm(m.tt.Ite(lt, x, y))
		}
		return fromTerm(m.tt.Ite(lt, y, x))
	}
	panic(unsupported("min/max of " + in.t2.String()))
}

func (m *M) copyCells(fr *Frame, dst, src []Value) {
	n := len(dst)
	if n == 0 {
		return
	}
	if m.multi && !fr.fn.noTrack {
		for i := range src {
			m.trackDeep(&src[i], false)
		}
		for i := range dst {
			m.trackDeep(&dst[i], true)
		}
	}
	if _, ok := src[0].R.(*Agg); ok {
		tmp := make([]Value, n)
		for i := range src {
			tmp[i] = copyVal(src[i])
		}
		for i := range dst {
			assignCell(&dst[i], tmp[i])
		}
		return
	}
	copy(dst, src)
}

func assignCell(p *Value, v Value) {
	if a, ok := v.R.(*Agg); ok {
		if d, ok := p.R.(*Agg); ok && len(d.e) == len(a.e) {
			for i := range a.e {
				assignCell(&d.e[i], a.e[i])
			}
			return
		}
	}
	*p = v
}

func (m *M) appendB(fr *Frame, in *Instr, args []Value) Value {
	var s []Value
	if r, ok := args[0].R.(*Slice); ok {
		s = r.s
	}
	var add []Value
	switch r := args[1].R.(type) {
	case nil:
	case *Slice:
		add = r.s
	default:
		add = strBytes(args[1])
	}
	if len(add) == 0 {
		return args[0]
	}
	n := len(s) + len(add)
	el := under(in.t2).(*types.Slice).Elem()
	if n <= cap(s) {
		d := s[len(s):n]
		m.copyCells(fr, d, add)
		return Value{R: &Slice{s[:n]}}
	}
	nc := cap(s)
	if nc < 256 {
		nc *= 2
	} else {
		nc += (nc + 768) / 4
	}
	if nc < n {
		nc = n
	}
	// round up like the allocator's smallest size class
	if sz := int(sizeof(el)); sz > 0 && sz < 8 {
		per := 8 / sz
		nc = (nc + per - 1) / per * per
	}
	m.cells += int64(nc)
	if m.cells > 40_000_000 {
		panic(pathEnd{"budget", "memory cells"})
	}
	ns := make([]Value, nc)
	if kindOf(el) == kAgg {
		if m.multi && !fr.fn.noTrack {
			for i := range s {
				m.trackDeep(&s[i], false)
			}
		}
		for i := range s {
			ns[i] = copyVal(s[i])
		}
		for i := n; i < nc; i++ {
			ns[i] = zero(el)
		}
		for i := range add {
			ns[len(s)+i] = copyVal(add[i])
		}
	} else {
		if m.multi && !fr.fn.noTrack {
			for i := range s {
				m.track(&s[i], false)
			}
			for i := range add {
				m.track(&add[i], false)
			}
		}
		copy(ns, s)
		copy(ns[len(s):], add)
	}
	return Value{R: &Slice{ns[:n]}}
}

// ---- if-conversion ----

type outcome struct {
	phis []Value // values for the phis of the join
	ret  Value   // function exit
}

type memWrite struct {
	p *Value
	v Value
	w uint8
}

// tryMerge executes both sides of a branch speculatively and joins them.
func (m *M) tryMerge(g *G, fr *Frame, in *Instr, cond *Term) (done bool) {
	if m.spec != nil {
		panic("nested tryMerge")
	}
	saveBlk, savePC := fr.blk, fr.pc
	m.spec = &specState{}
	defer func() {
		sp := m.spec
		m.spec = nil
		if r := recover(); r != nil {
			if _, ok := r.(specAbort); ok {
				for i := len(sp.log) - 1; i >= 0; i-- {
					*sp.log[i].p = sp.log[i].old
				}
				g.top = fr
				fr.blk, fr.pc = saveBlk, savePC
				m.w.stat.mergeAborts++
				done = false
				return
			}
			panic(r)
		}
	}()
	out := m.mergeBranch(fr, fr.blk, in.reg, cond)
	m.w.stat.merges++
	if in.reg.join != nil {
		for i := range in.reg.join.phis {
			fr.regs[in.reg.join.phis[i].dst] = out.phis[i]
		}
		fr.blk, fr.pc = in.reg.join, 0
		return true
	}
	m.spec = nil
	m.doReturn(g, fr, out.ret)
	return true
}

// mergeBranch runs both successors of b up to the region join.
func (m *M) mergeBranch(fr *Frame, b *Blk, reg *Region, cond *Term) outcome {
	base := len(m.spec.log)
	side := func(s *Blk) (outcome, []memWrite) {
		o := m.specRun(fr, s, b, reg.join)
		// collect final values of written cells, then undo
		seen := map[*Value]bool{}
		var ws []memWrite
		for i := len(m.spec.log) - 1; i >= base; i-- {
			r := m.spec.log[i]
			if !seen[r.p] {
				seen[r.p] = true
				ws = append(ws, memWrite{r.p, *r.p, r.w})
			}
		}
		for i := len(m.spec.log) - 1; i >= base; i-- {
			r := m.spec.log[i]
			*r.p = r.old
		}
		m.spec.log = m.spec.log[:base]
		return o, ws
	}
	o1, w1 := side(b.succs[0])
	o2, w2 := side(b.succs[1])
	// memory
	idx := map[*Value]int{}
	type pair struct {
		a, b Value
		w    uint8
	}
	var order []*Value
	var ps []pair
	for _, x := range w1 {
		idx[x.p] = len(ps)
		order = append(order, x.p)
		ps = append(ps, pair{x.v, *x.p, x.w})
	}
	for _, x := range w2 {
		if i, ok := idx[x.p]; ok {
			ps[i].b = x.v
			continue
		}
		order = append(order, x.p)
		ps = append(ps, pair{*x.p, x.v, x.w})
	}
	for i, p := range order {
		v := m.mergeVal(cond, ps[i].a, ps[i].b, ps[i].w)
		m.spec.log = append(m.spec.log, undoRec{p, *p, ps[i].w})
		*p = v
	}
	var out outcome
	if reg.join != nil {
		for i := range o1.phis {
			out.phis = append(out.phis, m.mergeVal(cond, o1.phis[i], o2.phis[i], reg.join.phis[i].w))
		}
		return out
	}
	res := fr.fn.resTypes
	switch res.Len() {
	case 0:
	case 1:
		out.ret = m.mergeVal(cond, o1.ret, o2.ret, widthOf(res.At(0).Type()))
	default:
		t := &Tuple{make([]Value, res.Len())}
		a, b := o1.ret.R.(*Tuple), o2.ret.R.(*Tuple)
		for i := range t.v {
			t.v[i] = m.mergeVal(cond, a.v[i], b.v[i], widthOf(res.At(i).Type()))
		}
		out.ret = Value{R: t}
	}
	return out
}

func (m *M) mergeVal(c *Term, a, b Value, w uint8) Value {
	if a.R == nil && b.R == nil && a.N == b.N {
		return a
	}
	_, ta := a.R.(*Term)
	_, tb := b.R.(*Term)
	if (a.R == nil || ta) && (b.R == nil || tb) && w != 255 {
		return fromTerm(m.tt.Ite(c, m.term(a, w), m.term(b, w)))
	}
	if a.N == b.N && sameRef(a.R, b.R) {
		return a
	}
	panic(specAbort{"unmergeable"})
}

func sameRef(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *Slice:
		y, ok := b.(*Slice)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		return len(x.s) == len(y.s) && cap(x.s) == cap(y.s) && cap(x.s) > 0 && &x.s[:1][0] == &y.s[:1][0]
	case *Iface:
		y, ok := b.(*Iface)
		return ok && x == y
	case *Tuple:
		y, ok := b.(*Tuple)
		return ok && x == y
	default:
		return a == b
	}
}

// specRun executes from block s (entered from prev) to stop, or to function
// exit when stop is nil.
func (m *M) specRun(fr *Frame, s, prev, stop *Blk) outcome {
	for {
		if s == stop {
			var o outcome
			if len(s.phis) > 0 {
				e := predIndex(s, prev.idx)
				for i := range s.phis {
					o.phis = append(o.phis, fr.get(m, s.phis[i].edges[e]))
				}
			}
			return o
		}
		if prev == nil {
			fr.blk, fr.pc = s, 0
		} else {
			fr.blk = prev
			m.jump(fr, s)
		}
	body:
		b := s
		for i := range b.ins {
			in := &b.ins[i]
			fr.pc = i
			m.steps++
			m.spec.steps++
			if m.spec.steps > 4000 {
				panic(specAbort{"too long"})
			}
			switch in.op {
			case oJump:
				prev, s = b, b.succs[0]
			case oIf:
				c := fr.get(m, in.a)
				if t, ok := c.R.(*Term); ok {
					if in.reg == nil || !in.reg.ok {
						panic(specAbort{"region"})
					}
					o := m.mergeBranch(fr, b, in.reg, t)
					if in.reg.join == stop {
						return o
					}
					if in.reg.join == nil {
						panic(specAbort{"exit in region"})
					}
					j := in.reg.join
					for k := range j.phis {
						fr.regs[j.phis[k].dst] = o.phis[k]
					}
					s = j
					fr.blk, fr.pc = j, 0
					goto body
				}
				prev = b
				if c.N != 0 {
					s = b.succs[0]
				} else {
					s = b.succs[1]
				}
			case oReturn:
				if stop != nil {
					panic(specAbort{"return in region"})
				}
				var o outcome
				if len(in.args) == 1 {
					o.ret = fr.get(m, in.args[0])
				} else if len(in.args) > 1 {
					t := &Tuple{make([]Value, len(in.args))}
					for k, a := range in.args {
						t.v[k] = fr.get(m, a)
					}
					o.ret = Value{R: t}
				}
				return o
			case oCall:
				fr.regs[in.dst] = m.specCall(fr, in)
			default:
				m.exec(m.cur, fr, in)
			}
		}
	}
}

func (m *M) specCall(fr *Frame, in *Instr) Value {
	args := make([]Value, len(in.args))
	for i, a := range in.args {
		args[i] = fr.get(m, a)
	}
	if in.bltn != "" {
		return m.builtin(fr, in, args)
	}
	if in.stat == nil {
		panic(specAbort{"call"})
	}
	c := m.compile(in.stat)
	if c.intr != nil {
		return c.intr(m, fr, in, args)
	}
	if c.pure != 1 {
		panic(specAbort{"call"})
	}
	nf := &Frame{fn: c, regs: make([]Value, c.nregs), blk: c.blocks[0], caller: fr}
	if c.isRepo {
		m.touched[c] = true
	}
	copy(nf.regs, args)
	o := m.specRun(nf, c.blocks[0], nil, nil)
	return o.ret
}

// tokMismatch tells whether concrete text cannot be the text of a string with
// formatted numbers; ok is false if neither side is concrete.
func tokMismatch(x, y []Value) (mismatch, ok bool) {
	conc := func(v []Value) (string, bool) {
		var b []byte
		for _, c := range v {
			if c.R != nil {
				return "", false
			}
			b = append(b, byte(c.N))
		}
		return string(b), true
	}
	s, ok := conc(x)
	if !ok {
		x, y = y, x
		if s, ok = conc(x); !ok {
			return false, false
		}
	}
	re := "(?s)^"
	for _, c := range y {
		switch t := c.R.(type) {
		case nil:
			re += regexp.QuoteMeta(string([]byte{byte(c.N)}))
		case *Tok:
			if t.verb == "d" {
				re += "-?[0-9]+"
			} else {
				re += ".+"
			}
		default:
			re += "."
		}
	}
	r, err := regexp.Compile(re + "$")
	return err == nil && !r.MatchString(s), true
}

// alignToks turns a run of digits that stands where the other string has a
// formatted number into a number.
func (m *M) alignToks(x, y []Value) (nx, ny []Value) {
	dec := func(v []Value, i int) bool {
		if i >= len(v) {
			return false
		}
		t, ok := v[i].R.(*Tok)
		if !ok || t.verb != "d" || t.t.W == sortFP {
			return false
		}
		return i+1 == len(v) || (v[i+1].R == nil && (v[i+1].N < '0' || v[i+1].N > '9'))
	}
	num := func(v []Value, i int) (Value, int) {
		j := i
		var b []byte
		for j < len(v) && v[j].R == nil && (v[j].N >= '0' && v[j].N <= '9' || (j == i && v[j].N == '-')) {
			b = append(b, byte(v[j].N))
			j++
		}
		if j < len(v) && v[j].R != nil {
			return Value{}, i
		}
		s := string(b)
		if n, err := strconv.ParseUint(s, 10, 64); err == nil && strconv.FormatUint(n, 10) == s {
			return Value{R: &Tok{"d", m.tt.Const(64, n), false}}, j
		}
		if n, err := strconv.ParseInt(s, 10, 64); err == nil && strconv.FormatInt(n, 10) == s {
			return Value{R: &Tok{"d", m.tt.Const(64, uint64(n)), true}}, j
		}
		return Value{}, i
	}
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		if dec(x, i) && y[j].R == nil {
			if v, k := num(y, j); k > j {
				nx, ny = append(nx, x[i]), append(ny, v)
				i, j = i+1, k
				continue
			}
		} else if dec(y, j) && x[i].R == nil {
			if v, k := num(x, i); k > i {
				nx, ny = append(nx, v), append(ny, y[j])
				i, j = k, j+1
				continue
			}
		}
		nx, ny = append(nx, x[i]), append(ny, y[j])
		i, j = i+1, j+1
	}
	return append(nx, x[i:]...), append(ny, y[j:]...)
}
