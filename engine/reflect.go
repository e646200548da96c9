package main

// A model of the part of package reflect that library code such as
// encoding/binary uses: a reflect.Value is a cell with its type, and reading or
// setting it reads or writes the cell. sync.Map and atomic.Value are here too.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/types/typeutil"
)

type rtyp struct{ t types.Type }

type rval struct {
	t    types.Type
	cell *Value
	addr bool // addressable
	ro   bool // reached through an unexported field
}

var rsizes = types.SizesFor("gc", "amd64")

func (m *M) rtypeOf(t types.Type) Value {
	p := m.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.rtypes == nil {
		p.rtypes = new(typeutil.Map)
		if pk := p.prog.ImportedPackage("reflect"); pk != nil {
			if o := pk.Pkg.Scope().Lookup("rtype"); o != nil {
				p.rtypeT = types.NewPointer(o.Type())
			}
		}
	}
	if p.rtypeT == nil {
		panic(unsupported("reflect.Type"))
	}
	r, _ := p.rtypes.At(t).(*rtyp)
	if r == nil {
		r = &rtyp{t}
		p.rtypes.Set(t, r)
	}
	return Value{R: &Iface{p.rtypeT, Value{R: r}}}
}

func rvalue(v *rval) Value { return Value{R: &Agg{[]Value{{R: v}, {}, {}}}} }

func rkind(t types.Type) uint64 {
	switch u := under(t).(type) {
	case *types.Basic:
		switch k := u.Kind(); {
		case k >= types.Bool && k <= types.Complex128:
			return uint64(k) // the same numbering up to here
		case k == types.String:
			return 24
		case k == types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	panic(unsupported("reflect kind of " + t.String()))
}

func rpanic(msg string) {
	panic(&goPanic{msg: msg, v: Value{R: &Iface{types.Typ[types.String], strV(msg)}}})
}

// swapOf swaps two elements of a slice.
func swapOf(v Value) *Closure {
	var s []Value
	if x, ok := v.R.(*Slice); ok {
		s = x.s
	}
	return &Closure{name: "swap", native: func(m *M, x []Value) Value {
		i, j := int(x[0].N), int(x[1].N)
		if m.multi {
			m.trackDeep(&s[i], true)
			m.trackDeep(&s[j], true)
		}
		t := copyVal(s[i])
		assignCell(&s[i], copyVal(s[j]))
		assignCell(&s[j], t)
		return Value{}
	}}
}

func init() {
	typ := func(a []Value) types.Type {
		r, _ := a[0].R.(*rtyp)
		if r == nil {
			panic(unsupported("method of a reflect.Type that is not modelled"))
		}
		return r.t
	}
	regT := func(name string, f func(m *M, t types.Type, a []Value) Value) {
		reg("(*reflect.rtype)."+name, func(m *M, fr *Frame, in *Instr, a []Value) Value { return f(m, typ(a), a) })
	}
	regT("Kind", func(m *M, t types.Type, a []Value) Value { return conc(rkind(t)) })
	regT("String", func(m *M, t types.Type, a []Value) Value {
		return strV(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	})
	regT("Name", func(m *M, t types.Type, a []Value) Value {
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			return strV(x.Obj().Name())
		case *types.Basic:
			return strV(x.Name())
		}
		return Value{}
	})
	regT("Size", func(m *M, t types.Type, a []Value) Value { return conc(uint64(rsizes.Sizeof(t))) })
	regT("Bits", func(m *M, t types.Type, a []Value) Value { return conc(uint64(rsizes.Sizeof(t)) * 8) })
	regT("Comparable", func(m *M, t types.Type, a []Value) Value { return boolV(types.Comparable(t)) })
	regT("Elem", func(m *M, t types.Type, a []Value) Value {
		if e, ok := under(t).(interface{ Elem() types.Type }); ok {
			return m.rtypeOf(e.Elem())
		}
		rpanic("reflect: Elem of invalid type " + t.String())
		return Value{}
	})
	regT("Len", func(m *M, t types.Type, a []Value) Value {
		if e, ok := under(t).(*types.Array); ok {
			return conc(uint64(e.Len()))
		}
		rpanic("reflect: Len of non-array type " + t.String())
		return Value{}
	})
	strct := func(t types.Type) *types.Struct {
		s, ok := under(t).(*types.Struct)
		if !ok {
			rpanic("reflect: NumField of non-struct type " + t.String())
		}
		return s
	}
	regT("NumField", func(m *M, t types.Type, a []Value) Value { return conc(uint64(strct(t).NumFields())) })
	regT("Field", func(m *M, t types.Type, a []Value) Value {
		s := strct(t)
		i := int(m.concretize(a[1], 64, "field index"))
		if i < 0 || i >= s.NumFields() {
			rpanic("reflect: Field index out of bounds")
		}
		sf := m.p.prog.ImportedPackage("reflect").Pkg.Scope().Lookup("StructField").Type()
		out := zero(sf)
		f := s.Field(i)
		su := under(sf).(*types.Struct)
		for k := 0; k < su.NumFields(); k++ {
			c := &out.R.(*Agg).e[k]
			switch su.Field(k).Name() {
			case "Name":
				*c = strV(f.Name())
			case "PkgPath":
				if !f.Exported() && f.Pkg() != nil {
					*c = strV(f.Pkg().Path())
				}
			case "Type":
				*c = m.rtypeOf(f.Type())
			case "Tag":
				*c = strV(s.Tag(i))
			case "Index":
				*c = Value{R: &Slice{[]Value{conc(uint64(i))}}}
			case "Anonymous":
				*c = boolV(f.Anonymous())
			}
		}
		return out
	})

	val := func(a []Value) *rval {
		if g, ok := a[0].R.(*Agg); ok {
			r, _ := g.e[0].R.(*rval)
			return r
		}
		panic(unsupported("method of a reflect.Value that is not modelled"))
	}
	regV := func(name string, f func(m *M, fr *Frame, v *rval, a []Value) Value) {
		reg("(reflect.Value)."+name, func(m *M, fr *Frame, in *Instr, a []Value) Value {
			v := val(a)
			if v == nil {
				rpanic("reflect: call of reflect.Value." + name + " on zero Value")
			}
			return f(m, fr, v, a)
		})
	}
	reg("reflect.TypeOf", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		i, _ := a[0].R.(*Iface)
		if i == nil {
			return Value{}
		}
		return m.rtypeOf(i.t)
	})
	reg("reflect.ValueOf", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		i, _ := a[0].R.(*Iface)
		if i == nil {
			return Value{R: &Agg{make([]Value, 3)}}
		}
		c := copyVal(i.v)
		return rvalue(&rval{t: i.t, cell: &c})
	})
	reg("(reflect.Value).IsValid", func(m *M, fr *Frame, in *Instr, a []Value) Value { return boolV(val(a) != nil) })
	reg("(reflect.Value).Kind", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		v := val(a)
		if v == nil {
			return conc(0)
		}
		return conc(rkind(v.t))
	})
	reg("(reflect.Value).CanSet", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		v := val(a)
		return boolV(v != nil && v.addr && !v.ro)
	})
	reg("(reflect.Value).CanAddr", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		v := val(a)
		return boolV(v != nil && v.addr)
	})
	regV("CanInterface", func(m *M, fr *Frame, v *rval, a []Value) Value { return boolV(!v.ro) })
	regV("Type", func(m *M, fr *Frame, v *rval, a []Value) Value { return m.rtypeOf(v.t) })
	rd := func(m *M, fr *Frame, v *rval) Value { return m.load(fr, v.cell, kindOf(v.t)) }
	regV("Elem", func(m *M, fr *Frame, v *rval, a []Value) Value {
		x := rd(m, fr, v)
		switch u := under(v.t).(type) {
		case *types.Pointer:
			if x.R == nil {
				return Value{R: &Agg{make([]Value, 3)}}
			}
			return rvalue(&rval{t: u.Elem(), cell: m.deref(fr, x), addr: true, ro: v.ro})
		case *types.Interface:
			i, _ := x.R.(*Iface)
			if i == nil {
				return Value{R: &Agg{make([]Value, 3)}}
			}
			c := copyVal(i.v)
			return rvalue(&rval{t: i.t, cell: &c, ro: v.ro})
		}
		rpanic("reflect: call of reflect.Value.Elem on " + v.t.String() + " Value")
		return Value{}
	})
	regV("Addr", func(m *M, fr *Frame, v *rval, a []Value) Value {
		if !v.addr {
			rpanic("reflect.Value.Addr of unaddressable value")
		}
		return rvalue(&rval{t: types.NewPointer(v.t), cell: &Value{R: v.cell}, ro: v.ro})
	})
	regV("Interface", func(m *M, fr *Frame, v *rval, a []Value) Value {
		if v.ro {
			rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		x := rd(m, fr, v)
		if _, ok := under(v.t).(*types.Interface); ok {
			return x
		}
		return Value{R: &Iface{v.t, x}}
	})
	regV("IsNil", func(m *M, fr *Frame, v *rval, a []Value) Value { return boolV(rd(m, fr, v).R == nil) })
	regV("NumField", func(m *M, fr *Frame, v *rval, a []Value) Value { return conc(uint64(strct(v.t).NumFields())) })
	regV("Field", func(m *M, fr *Frame, v *rval, a []Value) Value {
		s := strct(v.t)
		i := int(m.concretize(a[1], 64, "field index"))
		if i < 0 || i >= s.NumFields() {
			rpanic("reflect: Field index out of range")
		}
		f := s.Field(i)
		return rvalue(&rval{t: f.Type(), cell: &v.cell.R.(*Agg).e[i], addr: v.addr, ro: v.ro || !f.Exported()})
	})
	elems := func(m *M, fr *Frame, v *rval) (s []Value, et types.Type, addr bool) {
		switch u := under(v.t).(type) {
		case *types.Slice:
			x := rd(m, fr, v)
			if x.R != nil {
				s = x.R.(*Slice).s
			}
			return s, u.Elem(), true
		case *types.Array:
			return v.cell.R.(*Agg).e, u.Elem(), v.addr
		}
		panic(unsupported("reflect elements of " + v.t.String()))
	}
	regV("Len", func(m *M, fr *Frame, v *rval, a []Value) Value {
		switch under(v.t).(type) {
		case *types.Slice, *types.Array:
			s, _, _ := elems(m, fr, v)
			return conc(uint64(len(s)))
		case *types.Basic:
			return conc(uint64(strLen(rd(m, fr, v))))
		case *types.Map:
			if o, ok := rd(m, fr, v).R.(*MapObj); ok {
				return conc(uint64(o.n))
			}
			return conc(0)
		}
		panic(unsupported("reflect length of " + v.t.String()))
	})
	regV("Index", func(m *M, fr *Frame, v *rval, a []Value) Value {
		s, et, addr := elems(m, fr, v)
		i := int(m.concretize(a[1], 64, "element index"))
		if i < 0 || i >= len(s) {
			rpanic("reflect: slice index out of range")
		}
		return rvalue(&rval{t: et, cell: &s[i], addr: addr, ro: v.ro})
	})
	num := func(m *M, fr *Frame, v *rval, sgn bool) Value {
		w, s, ok := intInfo(v.t)
		if !ok || s != sgn {
			rpanic("reflect: call of reflect.Value.Int or Uint on " + v.t.String() + " Value")
		}
		x := rd(m, fr, v)
		if w == 64 {
			return x
		}
		if sgn {
			return fromTerm(m.tt.Sext(m.term(x, w), 64))
		}
		return fromTerm(m.tt.Zext(m.term(x, w), 64))
	}
	regV("Int", func(m *M, fr *Frame, v *rval, a []Value) Value { return num(m, fr, v, true) })
	regV("Uint", func(m *M, fr *Frame, v *rval, a []Value) Value { return num(m, fr, v, false) })
	regV("Bool", func(m *M, fr *Frame, v *rval, a []Value) Value { return rd(m, fr, v) })
	regV("Float", func(m *M, fr *Frame, v *rval, a []Value) Value {
		if rkind(v.t) != 14 {
			panic(unsupported("reflect.Value.Float of " + v.t.String()))
		}
		return rd(m, fr, v)
	})
	regV("String", func(m *M, fr *Frame, v *rval, a []Value) Value {
		if rkind(v.t) == 24 {
			return rd(m, fr, v)
		}
		return strV("<" + v.t.String() + " Value>")
	})
	set := func(name string, f func(m *M, fr *Frame, v *rval, x Value) (Value, uint8)) {
		regV(name, func(m *M, fr *Frame, v *rval, a []Value) Value {
			if !v.addr || v.ro {
				rpanic("reflect: reflect.Value." + name + " using unaddressable value")
			}
			x, w := f(m, fr, v, a[1])
			m.store(fr, v.cell, x, w)
			return Value{}
		})
	}
	trunc := func(m *M, fr *Frame, v *rval, x Value) (Value, uint8) {
		w, _, ok := intInfo(v.t)
		if !ok {
			rpanic("reflect: call of reflect.Value.SetInt or SetUint on " + v.t.String() + " Value")
		}
		if w == 64 {
			return x, w
		}
		return fromTerm(m.tt.Extract(m.term(x, 64), 0, w)), w
	}
	set("SetInt", trunc)
	set("SetUint", trunc)
	set("SetBool", func(m *M, fr *Frame, v *rval, x Value) (Value, uint8) { return x, 0 })
	set("SetFloat", func(m *M, fr *Frame, v *rval, x Value) (Value, uint8) {
		if rkind(v.t) != 14 {
			panic(unsupported("reflect.Value.SetFloat of " + v.t.String()))
		}
		return x, sortFP
	})
	set("SetString", func(m *M, fr *Frame, v *rval, x Value) (Value, uint8) { return x, 0 })
	set("Set", func(m *M, fr *Frame, v *rval, x Value) (Value, uint8) {
		y := val([]Value{x})
		if y == nil {
			rpanic("reflect: call of reflect.Value.Set on zero Value")
		}
		c := rd(m, fr, y)
		if _, ok := under(v.t).(*types.Interface); ok {
			if _, isI := under(y.t).(*types.Interface); !isI {
				c = Value{R: &Iface{y.t, c}}
			}
		}
		w, _, _ := intInfo(v.t)
		return c, w
	})
	rt := func(v Value) types.Type {
		if i, ok := v.R.(*Iface); ok {
			if r, ok := i.v.R.(*rtyp); ok {
				return r.t
			}
		}
		panic(unsupported("reflect.Type that is not modelled"))
	}
	reg("reflect.New", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		t := rt(a[0])
		c := zero(t)
		return rvalue(&rval{t: types.NewPointer(t), cell: &Value{R: &c}})
	})
	reg("reflect.Zero", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		t := rt(a[0])
		c := zero(t)
		return rvalue(&rval{t: t, cell: &c})
	})
	reg("reflect.MakeSlice", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		t := rt(a[0])
		st, ok := under(t).(*types.Slice)
		if !ok {
			rpanic("reflect.MakeSlice of non-slice type")
		}
		n, c := int(m.concretize(a[1], 64, "slice length")), int(m.concretize(a[2], 64, "slice capacity"))
		if n < 0 || c < n || c > 1<<24 {
			panic(unsupported(fmt.Sprintf("reflect.MakeSlice of %d, %d", n, c)))
		}
		s := make([]Value, c)
		for i := range s {
			s[i] = zero(st.Elem())
		}
		return rvalue(&rval{t: t, cell: &Value{R: &Slice{s[:n]}}})
	})
	for _, n := range []string{"Len", "IsValid", "Kind", "IsNil", "Elem", "CanSet"} {
		reg("(internal/reflectlite.Value)."+n, intrinsics["(reflect.Value)."+n])
	}
	reg("internal/reflectlite.ValueOf", intrinsics["reflect.ValueOf"])
	swapper := func(m *M, fr *Frame, in *Instr, a []Value) Value {
		i, _ := a[0].R.(*Iface)
		if i == nil {
			rpanic("reflect: call of Swapper on zero Value")
		}
		return Value{R: swapOf(i.v)}
	}
	reg("internal/reflectlite.Swapper", swapper)
	reg("reflect.Swapper", swapper)
	// deep equality of values whose structure is concrete
	var deep func(m *M, fr *Frame, x, y Value, t types.Type, depth int) *Term
	deep = func(m *M, fr *Frame, x, y Value, t types.Type, depth int) *Term {
		if depth > 50 {
			panic(unsupported("reflect.DeepEqual of a deep structure"))
		}
		switch u := under(t).(type) {
		case *types.Slice:
			if (x.R == nil) != (y.R == nil) {
				return m.tt.False
			}
			if x.R == nil {
				return m.tt.True
			}
			p, q := x.R.(*Slice).s, y.R.(*Slice).s
			if len(p) != len(q) {
				return m.tt.False
			}
			r := m.tt.True
			for i := range p {
				r = m.tt.BAnd(r, deep(m, fr, p[i], q[i], u.Elem(), depth+1))
			}
			return r
		case *types.Array:
			r := m.tt.True
			for i := range x.R.(*Agg).e {
				r = m.tt.BAnd(r, deep(m, fr, x.R.(*Agg).e[i], y.R.(*Agg).e[i], u.Elem(), depth+1))
			}
			return r
		case *types.Struct:
			r := m.tt.True
			for i := range x.R.(*Agg).e {
				r = m.tt.BAnd(r, deep(m, fr, x.R.(*Agg).e[i], y.R.(*Agg).e[i], u.Field(i).Type(), depth+1))
			}
			return r
		case *types.Pointer:
			if x.R == y.R {
				return m.tt.True
			}
			if x.R == nil || y.R == nil {
				return m.tt.False
			}
			return deep(m, fr, *m.deref(fr, x), *m.deref(fr, y), u.Elem(), depth+1)
		case *types.Interface:
			p, _ := x.R.(*Iface)
			q, _ := y.R.(*Iface)
			if p == nil || q == nil {
				return m.tt.Bool(p == nil && q == nil)
			}
			if !types.Identical(p.t, q.t) {
				return m.tt.False
			}
			return deep(m, fr, p.v, q.v, p.t, depth+1)
		case *types.Map, *types.Signature, *types.Chan:
			panic(unsupported("reflect.DeepEqual of " + t.String()))
		}
		return m.equal(fr, x, y, t)
	}
	reg("reflect.DeepEqual", func(m *M, fr *Frame, in *Instr, a []Value) Value {
		return fromTerm(deep(m, fr, a[0], a[1], types.NewInterfaceType(nil, nil), 0))
	})

	// ---- sync.Map: one map, each operation atomic ----
	anyT := types.NewInterfaceType(nil, nil)
	mp := func(name string, f func(m *M, fr *Frame, in *Instr, o *MapObj, a []Value) Value) {
		name = "(*sync.Map)." + name
		reg(name, func(m *M, fr *Frame, in *Instr, a []Value) Value {
			m.stub("sync.Map (each operation atomic)")
			s := m.syncOf(a[0])
			m.acquire(m.cur, s.vc)
			s.vc = s.vc.join(m.release(m.cur))
			if s.m == nil {
				s.m = &MapObj{index: map[string]int{}}
			}
			return f(m, fr, in, s.m, a)
		})
		blockingIntr[name] = func(m *M, a []Value) bool { return true }
	}
	tup := func(v ...Value) Value { return Value{R: &Tuple{v}} }
	put := func(m *M, fr *Frame, o *MapObj, k, v Value) {
		if i := m.mapFind(fr, o, k, anyT); i >= 0 {
			o.vals[i] = v
			return
		}
		ks, ok := mapKey(k)
		if !ok {
			o.sym = true
		} else {
			o.index[ks] = len(o.keys)
		}
		o.keys, o.vals, o.dead = append(o.keys, k), append(o.vals, v), append(o.dead, false)
		o.n++
	}
	del := func(m *M, fr *Frame, o *MapObj, k Value) (Value, bool) {
		i := m.mapFind(fr, o, k, anyT)
		if i < 0 {
			return Value{}, false
		}
		o.dead[i] = true
		o.n--
		if ks, ok := mapKey(o.keys[i]); ok {
			delete(o.index, ks)
		}
		return o.vals[i], true
	}
	mp("Load", func(m *M, fr *Frame, in *Instr, o *MapObj, a []Value) Value {
		if i := m.mapFind(fr, o, a[1], anyT); i >= 0 {
			return tup(o.vals[i], boolV(true))
		}
		return tup(Value{}, boolV(false))
	})
	mp("Store", func(m *M, fr *Frame, in *Instr, o *MapObj, a []Value) Value { put(m, fr, o, a[1], a[2]); return Value{} })
	mp("LoadOrStore", func(m *M, fr *Frame, in *Instr, o *MapObj, a []Value) Value {
		if i := m.mapFind(fr, o, a[1], anyT); i >= 0 {
			return tup(o.vals[i], boolV(true))
		}
		put(m, fr, o, a[1], a[2])
		return tup(a[2], boolV(false))
	})
	mp("Swap", func(m *M, fr *Frame, in *Instr, o *MapObj, a []Value) Value {
		old, had := Value{}, false
		if i := m.mapFind(fr, o, a[1], anyT); i >= 0 {
			old, had = o.vals[i], true
		}
		put(m, fr, o, a[1], a[2])
		return tup(old, boolV(had))
	})
	mp("Delete", func(m *M, fr *Frame, in *Instr, o *MapObj, a []Value) Value { del(m, fr, o, a[1]); return Value{} })
	mp("LoadAndDelete", func(m *M, fr *Frame, in *Instr, o *MapObj, a []Value) Value {
		v, ok := del(m, fr, o, a[1])
		return tup(v, boolV(ok))
	})
	mp("Clear", func(m *M, fr *Frame, in *Instr, o *MapObj, a []Value) Value {
		*o = MapObj{index: map[string]int{}}
		return Value{}
	})

	// a formatted number takes one place of the buffer
	for _, x := range [][2]string{{"bufio", "Writer"}, {"strings", "Builder"}, {"bytes", "Buffer"}} {
		pkg, typ := x[0], x[1]
		reg("(*"+pkg+"."+typ+").WriteString", func(m *M, fr *Frame, in *Instr, a []Value) Value {
			f := m.p.prog.LookupMethod(types.NewPointer(m.p.prog.ImportedPackage(pkg).Pkg.Scope().Lookup(typ).Type()), nil, "Write")
			m.p.ensureBuilt(f)
			b := append([]Value(nil), strBytes(a[1])...)
			dst := in.dst
			if in.op == oCall {
				fr.pc++
			}
			m.pushFrame(m.cur, m.compile(f), []Value{a[0], {R: &Slice{b}}}, nil, dst)
			return Value{}
		})
	}

	// ---- atomic.Value ----
	sync2 := func(m *M, p Value) {
		s := m.syncOf(p)
		m.acquire(m.cur, s.vc)
		s.vc = s.vc.join(m.release(m.cur))
	}
	av := func(name string, f func(m *M, fr *Frame, c *Value, a []Value) Value) {
		name = "(*sync/atomic.Value)." + name
		reg(name, func(m *M, fr *Frame, in *Instr, a []Value) Value {
			g := m.deref(fr, a[0]).R.(*Agg)
			sync2(m, a[0])
			return f(m, fr, &g.e[0], a)
		})
		blockingIntr[name] = func(m *M, a []Value) bool { return true }
	}
	av("Load", func(m *M, fr *Frame, c *Value, a []Value) Value { return *c })
	av("Store", func(m *M, fr *Frame, c *Value, a []Value) Value {
		if a[1].R == nil {
			rpanic("sync/atomic: store of nil value into Value")
		}
		*c = a[1]
		return Value{}
	})
	av("Swap", func(m *M, fr *Frame, c *Value, a []Value) Value {
		o := *c
		*c = a[1]
		return o
	})
	av("CompareAndSwap", func(m *M, fr *Frame, c *Value, a []Value) Value {
		if m.decide(m.equal(fr, *c, a[1], anyT)) {
			*c = a[2]
			return boolV(true)
		}
		return boolV(false)
	})
}
