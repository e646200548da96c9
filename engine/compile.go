package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opc uint8

const (
	oNop opc = iota
	oBin
	oNeg
	oNot
	oCompl
	oLoad
	oStore
	oJump
	oIf
	oReturn
	oCall
	oGo
	oDefer
	oRunDefers
	oPanic
	oAlloc
	oFieldAddr
	oField
	oIndexAddr
	oIndex
	oLookup
	oSlice
	oMakeSlice
	oMakeMap
	oMakeChan
	oMakeClosure
	oMakeIface
	oCopy
	oConvert
	oTypeAssert
	oExtract
	oMapUpdate
	oRange
	oNext
	oSend
	oRecv
	oSelect
	oSliceToArr
)

// opnd: >=0 register, <0 && >globalBase constant -1-o, otherwise global
type opnd int32

const globalBase = -(1 << 24)
const noOp opnd = globalBase + 1

type Instr struct {
	op   opc
	tok  token.Token
	k    kind
	w    uint8
	sgn  bool
	w2   uint8
	sgn2 bool
	ok   bool // CommaOk
	dst  int32
	n    int32
	a    opnd
	b    opnd
	c    opnd
	d    opnd
	args []opnd
	t    types.Type
	t2   types.Type
	call *ssa.CallCommon
	stat *ssa.Function
	bltn string
	reg  *Region
	pos  token.Pos
	x    any
}

type Phi struct {
	dst   int32
	edges []opnd
	k     kind
	w     uint8
}

type Blk struct {
	idx   int
	phis  []Phi
	ins   []Instr
	succs []*Blk
	preds []int // original pred block indexes
}

// Region describes the side-effect-free code between a branch and its join.
type Region struct {
	ok     bool
	join   *Blk // nil: function exit
	hasMem bool
}

type Fn struct {
	fn       *ssa.Function
	name     string
	blocks   []*Blk
	nregs    int
	consts   []Value
	nparams  int
	pure     int8 // 0 unknown 1 yes 2 no 3 computing
	pureMem  bool
	noTrack  bool
	isRepo   bool
	intr     intrinsic
	hasDefer bool
	recover  *Blk
	resTypes *types.Tuple
	ninstr   int
}

type intrinsic func(m *M, fr *Frame, in *Instr, args []Value) Value

func (p *Program) compile(f *ssa.Function) *Fn {
	p.mu.Lock()
	if c, ok := p.fns[f]; ok {
		p.mu.Unlock()
		return c
	}
	p.mu.Unlock()
	p.ensureBuilt(f)
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.compileLocked(f)
}

func (p *Program) compileLocked(f *ssa.Function) *Fn {
	if c, ok := p.fns[f]; ok {
		return c
	}
	c := &Fn{fn: f, name: f.String()}
	p.fns[f] = c
	path := fnPkgPath(f)
	c.noTrack = strings.HasPrefix(path, vpath) && !strings.HasPrefix(f.Name(), "Track") && !strings.HasSuffix(path, "/vset")
	if strings.HasPrefix(path, vpath+"h") {
		c.noTrack = false
	}
	c.isRepo = strings.HasPrefix(path, "vibe-lsm/") && !strings.HasPrefix(path, vpath)
	if in := lookupIntrinsic(c.name); in != nil {
		c.intr = in
		return c
	}
	if f.Blocks == nil {
		return c // external: calling it is unsupported
	}
	slots := map[ssa.Value]int32{}
	next := int32(0)
	alloc := func(v ssa.Value) int32 {
		s := next
		slots[v] = s
		next++
		return s
	}
	for _, pr := range f.Params {
		alloc(pr)
	}
	c.nparams = len(f.Params)
	for _, fv := range f.FreeVars {
		alloc(fv)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	c.nregs = int(next)
	constIdx := map[ssa.Value]opnd{}
	op := func(v ssa.Value) opnd {
		if v == nil {
			return noOp
		}
		if s, ok := slots[v]; ok {
			return opnd(s)
		}
		if o, ok := constIdx[v]; ok {
			return o
		}
		var o opnd
		switch x := v.(type) {
		case *ssa.Global:
			o = opnd(globalBase - p.globalIndex(x))
		case *ssa.Const:
			c.consts = append(c.consts, constValue(x))
			o = opnd(-len(c.consts))
		case *ssa.Function:
			c.consts = append(c.consts, Value{R: &Closure{fn: x}})
			o = opnd(-len(c.consts))
		case *ssa.Builtin:
			o = noOp
		default:
			panic(unsupported(fmt.Sprintf("operand %T", v)))
		}
		constIdx[v] = o
		return o
	}
	c.blocks = make([]*Blk, len(f.Blocks))
	for i := range f.Blocks {
		c.blocks[i] = &Blk{idx: i}
	}
	for i, b := range f.Blocks {
		nb := c.blocks[i]
		for _, s := range b.Succs {
			nb.succs = append(nb.succs, c.blocks[s.Index])
		}
		for _, s := range b.Preds {
			nb.preds = append(nb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			c.ninstr++
			if ph, ok := in.(*ssa.Phi); ok {
				x := Phi{dst: slots[ph], k: kindOf(ph.Type()), w: widthOf(ph.Type())}
				for _, e := range ph.Edges {
					x.edges = append(x.edges, op(e))
				}
				nb.phis = append(nb.phis, x)
				continue
			}
			ni, ok := p.compileInstr(c, in, op, slots)
			if ok {
				nb.ins = append(nb.ins, ni)
			}
		}
	}
	if f.Recover != nil {
		c.recover = c.blocks[f.Recover.Index]
	}
	c.resTypes = f.Signature.Results()
	p.analyseRegions(c)
	return c
}

// widthOf: term sort for scalar types
func widthOf(t types.Type) uint8 {
	switch kindOf(t) {
	case kBool:
		return 0
	case kInt:
		w, _, _ := intInfo(t)
		return w
	case kFloat:
		return sortFP
	}
	return 255
}

func (p *Program) compileInstr(c *Fn, in ssa.Instruction, op func(ssa.Value) opnd, slots map[ssa.Value]int32) (Instr, bool) {
	ni := Instr{dst: -1, a: noOp, b: noOp, c: noOp, d: noOp, pos: in.Pos()}
	if v, ok := in.(ssa.Value); ok {
		ni.dst = slots[v]
		ni.t = v.Type()
	}
	setT := func(t types.Type) {
		ni.k = kindOf(t)
		ni.w, ni.sgn, _ = intInfo(t)
		if ni.k == kFloat {
			ni.w = sortFP
		}
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return ni, false
	case *ssa.BinOp:
		ni.op, ni.tok = oBin, x.Op
		ni.a, ni.b = op(x.X), op(x.Y)
		setT(x.X.Type())
		ni.t2 = x.X.Type()
		ni.w2, ni.sgn2, _ = intInfo(x.Y.Type())
		if b, ok := under(x.X.Type()).(*types.Basic); ok && b.Kind() == types.Float32 {
			ni.x = "f32"
		}
	case *ssa.UnOp:
		ni.a = op(x.X)
		setT(x.X.Type())
		switch x.Op {
		case token.SUB:
			ni.op = oNeg
		case token.NOT:
			ni.op = oNot
		case token.XOR:
			ni.op = oCompl
		case token.MUL:
			ni.op = oLoad
			ni.k = kindOf(x.Type())
		case token.ARROW:
			ni.op = oRecv
			ni.ok = x.CommaOk
			ni.t = under(x.X.Type()).(*types.Chan).Elem()
		}
	case *ssa.Store:
		ni.op = oStore
		ni.a, ni.b = op(x.Addr), op(x.Val)
		setT(x.Val.Type())
		ni.w = widthOf(x.Val.Type())
	case *ssa.Jump:
		ni.op = oJump
	case *ssa.If:
		ni.op = oIf
		ni.a = op(x.Cond)
	case *ssa.Return:
		ni.op = oReturn
		for _, r := range x.Results {
			ni.args = append(ni.args, op(r))
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Synthetic == "package initializer" {
			ni.op = oNop
			return ni, false
		}
		ni.op = oCall
		p.compileCall(&ni, &x.Call, op)
	case *ssa.Go:
		ni.op = oGo
		p.compileCall(&ni, &x.Call, op)
	case *ssa.Defer:
		ni.op = oDefer
		c.hasDefer = true
		p.compileCall(&ni, &x.Call, op)
	case *ssa.RunDefers:
		ni.op = oRunDefers
	case *ssa.Panic:
		ni.op = oPanic
		ni.a = op(x.X)
	case *ssa.Alloc:
		ni.op = oAlloc
		ni.t = under(x.Type()).(*types.Pointer).Elem()
		ni.k = kindOf(ni.t)
		ni.ok = x.Heap
	case *ssa.FieldAddr:
		ni.op, ni.a, ni.n = oFieldAddr, op(x.X), int32(x.Field)
	case *ssa.Field:
		ni.op, ni.a, ni.n = oField, op(x.X), int32(x.Field)
	case *ssa.IndexAddr:
		ni.op, ni.a, ni.b = oIndexAddr, op(x.X), op(x.Index)
		ni.w2, ni.sgn2, _ = intInfo(x.Index.Type())
		_, ni.ok = under(x.X.Type()).(*types.Pointer)
		ni.w, ni.sgn = onlyLoaded(x)
	case *ssa.Index:
		ni.op, ni.a, ni.b = oIndex, op(x.X), op(x.Index)
		ni.w2, ni.sgn2, _ = intInfo(x.Index.Type())
		ni.k = kindOf(x.X.Type())
		if w, _, ok := intInfo(x.Type()); ok && ni.k != kString {
			ni.w = w
		}
	case *ssa.Lookup:
		ni.op, ni.a, ni.b, ni.ok = oLookup, op(x.X), op(x.Index), x.CommaOk
		ni.k = kindOf(x.X.Type())
		ni.w2, ni.sgn2, _ = intInfo(x.Index.Type())
		if mt, ok := under(x.X.Type()).(*types.Map); ok {
			ni.t2 = mt.Elem()
			ni.x = mt.Key()
		}
	case *ssa.Slice:
		ni.op, ni.a, ni.b, ni.c, ni.d = oSlice, op(x.X), op(x.Low), op(x.High), op(x.Max)
		ni.k = kindOf(x.X.Type())
		_, ni.ok = under(x.X.Type()).(*types.Pointer)
	case *ssa.MakeSlice:
		ni.op, ni.a, ni.b = oMakeSlice, op(x.Len), op(x.Cap)
		ni.w2, ni.sgn2, _ = intInfo(x.Len.Type())
		ni.t2 = under(x.Type()).(*types.Slice).Elem()
		ni.n = int32(sizeof(ni.t2))
	case *ssa.MakeMap:
		ni.op = oMakeMap
	case *ssa.MakeChan:
		ni.op, ni.a = oMakeChan, op(x.Size)
		ni.t2 = under(x.Type()).(*types.Chan).Elem()
	case *ssa.MakeClosure:
		ni.op = oMakeClosure
		ni.stat = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			ni.args = append(ni.args, op(b))
		}
	case *ssa.MakeInterface:
		ni.op, ni.a = oMakeIface, op(x.X)
		ni.t2 = x.X.Type()
	case *ssa.ChangeType:
		ni.op, ni.a = oCopy, op(x.X)
	case *ssa.ChangeInterface:
		ni.op, ni.a = oCopy, op(x.X)
	case *ssa.Convert:
		ni.op, ni.a = oConvert, op(x.X)
		ni.t2 = x.X.Type()
		p.convKind(&ni, x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		ni.op, ni.a = oConvert, op(x.X)
		ni.t2 = x.X.Type()
		p.convKind(&ni, x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		ni.op, ni.a = oSliceToArr, op(x.X)
		ni.n = int32(under(under(x.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
	case *ssa.TypeAssert:
		ni.op, ni.a, ni.ok = oTypeAssert, op(x.X), x.CommaOk
		ni.t = x.AssertedType
	case *ssa.Extract:
		ni.op, ni.a, ni.n = oExtract, op(x.Tuple), int32(x.Index)
	case *ssa.MapUpdate:
		ni.op, ni.a, ni.b, ni.c = oMapUpdate, op(x.Map), op(x.Key), op(x.Value)
		ni.t2 = under(x.Map.Type()).(*types.Map).Key()
	case *ssa.Range:
		ni.op, ni.a = oRange, op(x.X)
		ni.k = kindOf(x.X.Type())
	case *ssa.Next:
		ni.op, ni.a, ni.ok = oNext, op(x.Iter), x.IsString
	case *ssa.Send:
		ni.op, ni.a, ni.b = oSend, op(x.Chan), op(x.X)
	case *ssa.Select:
		ni.op = oSelect
		ni.ok = x.Blocking
		ni.x = x
		for _, s := range x.States {
			ni.args = append(ni.args, op(s.Chan), op(s.Send))
		}
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", in, c.name)))
	}
	return ni, true
}

type convK uint8

const (
	cvIntInt convK = iota
	cvIntFloat
	cvFloatInt
	cvFloatFloat
	cvToBytes
	cvFromBytes
	cvIntStr
	cvSame
	cvBad
)

func (p *Program) convKind(ni *Instr, from, to types.Type) {
	ni.w, ni.sgn, _ = intInfo(from)
	ni.w2, ni.sgn2, _ = intInfo(to)
	kf, kt := kindOf(from), kindOf(to)
	f32 := false
	if b, ok := under(to).(*types.Basic); ok && b.Kind() == types.Float32 {
		f32 = true
	}
	ni.ok = f32
	byteSlice := func(t types.Type) bool {
		s, ok := under(t).(*types.Slice)
		if !ok {
			return false
		}
		w, _, ok := intInfo(s.Elem())
		return ok && w == 8
	}
	switch {
	case kf == kInt && kt == kInt:
		ni.x = cvIntInt
	case kf == kInt && kt == kFloat:
		ni.x = cvIntFloat
	case kf == kFloat && kt == kInt:
		ni.x = cvFloatInt
	case kf == kFloat && kt == kFloat:
		ni.x = cvFloatFloat
	case kf == kString && byteSlice(to):
		ni.x = cvToBytes
	case kt == kString && byteSlice(from):
		ni.x = cvFromBytes
	case kf == kInt && kt == kString:
		ni.x = cvIntStr
	case kf == kRef && kt == kRef, kf == kString && kt == kString, kf == kAgg && kt == kAgg, kf == kInt && kt == kRef, kf == kRef && kt == kInt:
		ni.x = cvSame
	default:
		ni.x = cvBad
	}
}

func (p *Program) compileCall(ni *Instr, cc *ssa.CallCommon, op func(ssa.Value) opnd) {
	ni.call = cc
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		ni.bltn = b.Name()
		if len(cc.Args) > 0 {
			ni.t2 = cc.Args[0].Type()
			ni.k = kindOf(ni.t2)
			ni.w, ni.sgn, _ = intInfo(ni.t2)
			if ni.k == kFloat {
				ni.w = sortFP
			}
		}
	} else if cc.IsInvoke() {
		ni.a = op(cc.Value)
	} else if f := cc.StaticCallee(); f != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			ni.a = op(mc)
		} else {
			ni.stat = f
			ni.a = noOp
		}
	} else {
		ni.a = op(cc.Value)
	}
	for _, a := range cc.Args {
		ni.args = append(ni.args, op(a))
	}
}

func sizeof(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := intInfo(t); ok {
			return int64(w / 8)
		}
		if u.Info()&types.IsString != 0 {
			return 16
		}
		if u.Info()&types.IsBoolean != 0 {
			return 1
		}
		return 8
	case *types.Struct:
		var n int64
		for i := 0; i < u.NumFields(); i++ {
			s := sizeof(u.Field(i).Type())
			al := min(max(s, 1), 8)
			if r := n % al; r != 0 && s > 0 {
				n += al - r
			}
			n += s
		}
		if r := n % 8; r != 0 && n > 8 {
			n += 8 - r
		}
		return n
	case *types.Array:
		return u.Len() * sizeof(u.Elem())
	case *types.Slice:
		return 24
	case *types.Interface:
		return 16
	}
	return 8
}

// ---- if-conversion regions ----

func (p *Program) pureInstr(in *Instr) (ok, mem bool) {
	switch in.op {
	case oBin:
		return in.k == kInt || in.k == kBool || in.k == kFloat || in.k == kRef || in.k == kString, false
	case oNeg, oNot, oCompl, oField, oIndex, oExtract, oJump, oIf, oReturn, oCopy, oFieldAddr, oIndexAddr:
		return true, false
	case oLoad:
		return true, true
	case oStore:
		return in.k == kInt || in.k == kBool || in.k == kFloat || in.k == kRef || in.k == kString, true
	case oConvert:
		switch in.x.(convK) {
		case cvIntInt, cvIntFloat, cvFloatInt, cvFloatFloat, cvSame:
			return true, false
		}
		return false, false
	case oCall:
		switch in.bltn {
		case "len", "cap", "min", "max":
			return true, false
		}
		if in.stat == nil || in.call.IsInvoke() {
			return false, false
		}
		if r := p.redirect(in.stat); r != nil {
			return false, false
		}
		if pureIntr[in.stat.String()] {
			return true, false
		}
		p.ensureBuilt(in.stat)
		if in.stat.Blocks == nil {
			return false, false
		}
		c := p.compileLocked(in.stat)
		return p.pureFn(c)
	}
	return false, false
}

func (p *Program) pureFn(c *Fn) (ok, mem bool) {
	if c.pure == 1 {
		return true, c.pureMem
	}
	if c.pure != 0 || c.intr != nil || len(c.blocks) == 0 || c.ninstr > 200 || c.hasDefer {
		if c.pure == 0 {
			c.pure = 2
		}
		return false, false
	}
	c.pure = 3
	// acyclic?
	state := make([]int8, len(c.blocks))
	var dfs func(b *Blk) bool
	dfs = func(b *Blk) bool {
		state[b.idx] = 1
		for _, s := range b.succs {
			if state[s.idx] == 1 || (state[s.idx] == 0 && !dfs(s)) {
				return false
			}
		}
		state[b.idx] = 2
		return true
	}
	good := dfs(c.blocks[0])
	if good {
	outer:
		for _, b := range c.blocks {
			if state[b.idx] == 0 {
				continue
			}
			for i := range b.ins {
				o, m := p.pureInstr(&b.ins[i])
				if m {
					c.pureMem = true
				}
				if !o {
					good = false
					break outer
				}
			}
		}
	}
	if good {
		c.pure = 1
	} else {
		c.pure = 2
	}
	return good, c.pureMem
}

func (p *Program) analyseRegions(c *Fn) {
	n := len(c.blocks)
	has := false
	for _, b := range c.blocks {
		if len(b.succs) == 2 {
			has = true
		}
	}
	if !has || n > 400 {
		return
	}
	// post-dominators: index n is the virtual exit
	exit := n
	succ := make([][]int, n+1)
	for i, b := range c.blocks {
		if len(b.succs) == 0 {
			succ[i] = []int{exit}
		}
		for _, s := range b.succs {
			succ[i] = append(succ[i], s.idx)
		}
	}
	// order: reverse postorder on the reverse graph from exit
	pred := make([][]int, n+1)
	for i := range succ {
		for _, s := range succ[i] {
			pred[s] = append(pred[s], i)
		}
	}
	order := []int{}
	seen := make([]bool, n+1)
	var dfs func(i int)
	dfs = func(i int) {
		seen[i] = true
		for _, q := range pred[i] {
			if !seen[q] {
				dfs(q)
			}
		}
		order = append(order, i)
	}
	dfs(exit)
	num := make([]int, n+1)
	for i, b := range order {
		num[b] = i
	}
	ip := make([]int, n+1)
	for i := range ip {
		ip[i] = -1
	}
	ip[exit] = exit
	for changed := true; changed; {
		changed = false
		for i := len(order) - 1; i >= 0; i-- {
			b := order[i]
			if b == exit {
				continue
			}
			nw := -1
			for _, s := range succ[b] {
				if ip[s] < 0 {
					continue
				}
				if nw < 0 {
					nw = s
					continue
				}
				x, y := s, nw
				for x != y {
					for num[x] < num[y] {
						x = ip[x]
					}
					for num[y] < num[x] {
						y = ip[y]
					}
				}
				nw = x
			}
			if nw != ip[b] {
				ip[b] = nw
				changed = true
			}
		}
	}
	for _, b := range c.blocks {
		if len(b.succs) != 2 || len(b.ins) == 0 {
			continue
		}
		last := &b.ins[len(b.ins)-1]
		if last.op != oIf || ip[b.idx] < 0 {
			continue
		}
		r := &Region{}
		last.reg = r
		j := ip[b.idx]
		if j != exit {
			r.join = c.blocks[j]
		} else if c.hasDefer {
			continue
		}
		state := map[int]int8{}
		cnt := 0
		var ok func(x *Blk) bool
		ok = func(x *Blk) bool {
			if x == r.join {
				return true
			}
			if x == b {
				return false
			}
			state[x.idx] = 1
			cnt++
			if cnt > 40 {
				return false
			}
			for i := range x.ins {
				o, m := p.pureInstr(&x.ins[i])
				if !o {
					return false
				}
				if m {
					r.hasMem = true
				}
			}
			for _, s := range x.succs {
				if s == r.join {
					continue
				}
				if state[s.idx] == 1 || (state[s.idx] == 0 && !ok(s)) {
					return false
				}
			}
			state[x.idx] = 2
			return true
		}
		r.ok = ok(b.succs[0]) && (state[b.succs[1].idx] == 2 || ok(b.succs[1]))
	}
}

// onlyLoaded tells whether an element address is of an integer element and only
// used to load it; the width of the element, or 0.
func onlyLoaded(x *ssa.IndexAddr) (uint8, bool) {
	w, _, ok := intInfo(x.Type().(*types.Pointer).Elem())
	if !ok || x.Referrers() == nil {
		return 0, false
	}
	for _, r := range *x.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			return 0, false
		}
	}
	return w, false
}
