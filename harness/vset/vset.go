// Package vset models github.com/weaviate/sroar as an abstract set of uint64.
// Operations never fork on symbolic members.
package vset

import "vibe-lsm/zzverif/vrt"

type item struct {
	v uint64
	g bool // present
}

type Bitmap struct {
	keys []uint64 // concrete members, in order of insertion
	idx  map[uint64]bool
	sym  []item

	// sroar works on the buffer it was made from or gave away, as long as changes fit:
	// src is that buffer and snap what it held when last looked at.
	src, snap []byte
}

// slack is how many members more a buffer takes before it is moved.
const slack = 4

// live takes in what has happened to the buffer.
func (b *Bitmap) live() {
	if b == nil || b.src == nil {
		return
	}
	vrt.Touch(b.src, false)
	if !vrt.SameMem(b.src, b.snap) {
		n := decode(b.src)
		b.keys, b.idx, b.sym = n.keys, n.idx, n.sym
		b.snap = append([]byte(nil), b.src...)
	}
}

// changed puts a change into the buffer if it fits.
func (b *Bitmap) changed() {
	if b.src == nil {
		return
	}
	if b.size() > len(b.src) {
		b.src, b.snap = nil, nil
		return
	}
	for i := range b.src {
		b.src[i] = 0
	}
	b.fill(b.src)
	vrt.Touch(b.src, true)
	b.snap = append([]byte(nil), b.src...)
}

type Iterator struct {
	a []uint64
	i int
}

func NewBitmap() *Bitmap             { return &Bitmap{idx: map[uint64]bool{}} }
func NewBitmapWith(n int) *Bitmap    { return NewBitmap() }
func FromSortedList(v []uint64) *Bitmap {
	b := NewBitmap()
	b.SetMany(v)
	return b
}

func (b *Bitmap) Contains(x uint64) bool {
	if b == nil {
		return false
	}
	b.live()
	return b.has(x)
}

func (b *Bitmap) has(x uint64) bool {
	r := false
	if vrt.IsConcrete(x) {
		if b.idx[x] {
			return true
		}
	} else {
		for i := range b.keys {
			r = vrt.Or(r, b.keys[i] == x)
		}
	}
	for i := range b.sym {
		r = vrt.Or(r, vrt.And(b.sym[i].g, b.sym[i].v == x))
	}
	return r
}

func (b *Bitmap) add(x uint64) {
	if vrt.IsConcrete(x) {
		if !b.idx[x] {
			b.idx[x] = true
			b.keys = append(b.keys, x)
		}
		return
	}
	b.sym = append(b.sym, item{x, true})
}

func (b *Bitmap) Set(x uint64) bool {
	had := b.Contains(x)
	b.add(x)
	b.changed()
	return !had
}

func (b *Bitmap) SetMany(vals []uint64) {
	b.live()
	for _, v := range vals {
		b.add(v)
	}
	b.changed()
}

// spill turns every member into a guarded item.
func (b *Bitmap) spill() {
	for _, k := range b.keys {
		b.sym = append(b.sym, item{k, true})
	}
	b.keys = nil
	b.idx = map[uint64]bool{}
}

func (b *Bitmap) Remove(x uint64) bool {
	if b == nil {
		return false
	}
	had := b.Contains(x)
	b.spill()
	for i := range b.sym {
		b.sym[i].g = vrt.And(b.sym[i].g, b.sym[i].v != x)
	}
	b.changed()
	return had
}

func (b *Bitmap) IsEmpty() bool {
	if b == nil {
		return true
	}
	b.live()
	if len(b.keys) > 0 {
		return false
	}
	any := false
	for i := range b.sym {
		any = vrt.Or(any, b.sym[i].g)
	}
	return !any
}

func (b *Bitmap) GetCardinality() int {
	if b == nil {
		return 0
	}
	b.live()
	n := len(b.keys)
	for i := range b.sym {
		seen := false
		for _, k := range b.keys {
			seen = vrt.Or(seen, k == b.sym[i].v)
		}
		for j := 0; j < i; j++ {
			seen = vrt.Or(seen, vrt.And(b.sym[j].g, b.sym[j].v == b.sym[i].v))
		}
		n += vrt.B2I(vrt.And(b.sym[i].g, !seen))
	}
	return n
}

// ToArray forks over presence and order of the members.
func (b *Bitmap) ToArray() []uint64 {
	if b == nil {
		return nil
	}
	b.live()
	out := []uint64{}
	put := func(v uint64) {
		p := len(out)
		for i, o := range out {
			if o == v {
				return
			}
			if v < o {
				p = i
				break
			}
		}
		out = append(out, 0)
		copy(out[p+1:], out[p:])
		out[p] = v
	}
	for _, k := range b.keys {
		put(k)
	}
	for _, s := range b.sym {
		if s.g {
			put(s.v)
		}
	}
	return out
}

func (b *Bitmap) extreme(max bool) uint64 {
	b.live()
	var r uint64
	have := false
	step := func(v uint64, g bool) {
		better := v < r
		if max {
			better = v > r
		}
		take := vrt.And(g, vrt.Or(!have, better))
		r = vrt.IteU(take, v, r)
		have = vrt.Or(have, g)
	}
	for _, k := range b.keys {
		step(k, true)
	}
	for _, s := range b.sym {
		step(s.v, s.g)
	}
	return vrt.IteU(have, r, 0)
}

func (b *Bitmap) Minimum() uint64 { return b.extreme(false) }
func (b *Bitmap) Maximum() uint64 { return b.extreme(true) }

func (b *Bitmap) Clone() *Bitmap {
	n := NewBitmap()
	if b == nil {
		return n
	}
	n.orIn(b)
	return n
}

func (b *Bitmap) Reset() {
	b.keys = nil
	b.idx = map[uint64]bool{}
	b.sym = nil
	b.changed()
}

func (b *Bitmap) orIn(o *Bitmap) {
	b.live()
	o.live()
	for _, k := range o.keys {
		b.add(k)
	}
	for _, s := range o.sym {
		b.sym = append(b.sym, s)
	}
	b.changed()
}

func (b *Bitmap) Or(o *Bitmap) *Bitmap {
	if o == nil {
		return b
	}
	if o != b {
		b.orIn(o)
	}
	return b
}
func (b *Bitmap) OrConc(o *Bitmap, n int) *Bitmap { return b.Or(o) }

func (b *Bitmap) And(o *Bitmap) *Bitmap {
	b.live()
	b.spill()
	for i := range b.sym {
		b.sym[i].g = vrt.And(b.sym[i].g, o.Contains(b.sym[i].v))
	}
	b.changed()
	return b
}
func (b *Bitmap) AndConc(o *Bitmap, n int) *Bitmap { return b.And(o) }

func (b *Bitmap) AndNot(o *Bitmap) *Bitmap {
	b.live()
	b.spill()
	for i := range b.sym {
		b.sym[i].g = vrt.And(b.sym[i].g, !o.Contains(b.sym[i].v))
	}
	b.changed()
	return b
}
func (b *Bitmap) AndNotConc(o *Bitmap, n int) *Bitmap { return b.AndNot(o) }

func Or(a, b *Bitmap) *Bitmap     { return a.Clone().Or(b) }
func And(a, b *Bitmap) *Bitmap    { return a.Clone().And(b) }
func AndNot(a, b *Bitmap) *Bitmap { return a.Clone().AndNot(b) }
func FastOr(bs ...*Bitmap) *Bitmap {
	if len(bs) == 1 {
		return bs[0]
	}
	r := NewBitmap()
	for _, b := range bs {
		r.Or(b)
	}
	return r
}
func FastAnd(bs ...*Bitmap) *Bitmap {
	if len(bs) == 0 {
		return NewBitmap()
	}
	r := bs[0].Clone()
	for _, b := range bs[1:] {
		r.And(b)
	}
	return r
}
func FastParOr(n int, bs ...*Bitmap) *Bitmap { return FastOr(bs...) }

func (b *Bitmap) NewIterator() *Iterator { return &Iterator{a: b.ToArray()} }
func (it *Iterator) Next() uint64 {
	if it.i >= len(it.a) {
		return 0
	}
	it.i++
	return it.a[it.i-1]
}

// Serialised form: count, then 10 bytes per member, and room for some more.
func (b *Bitmap) ToBuffer() []byte {
	if b.IsEmpty() {
		return nil
	}
	if b.src != nil {
		return b.src
	}
	out := make([]byte, b.size()+10*slack)
	b.fill(out)
	b.src, b.snap = out, append([]byte(nil), out...)
	return out
}

func (b *Bitmap) size() int { return 8 + 10*(len(b.keys)+len(b.sym)) }

func (b *Bitmap) fill(out []byte) {
	put := func(p int, v uint64) {
		out[p] = byte(v)
		out[p+1] = byte(v >> 8)
		out[p+2] = byte(v >> 16)
		out[p+3] = byte(v >> 24)
		out[p+4] = byte(v >> 32)
		out[p+5] = byte(v >> 40)
		out[p+6] = byte(v >> 48)
		out[p+7] = byte(v >> 56)
	}
	put(0, uint64(len(b.keys)+len(b.sym)))
	p := 8
	for _, k := range b.keys {
		put(p, k)
		out[p+8] = 1
		p += 10
	}
	for _, s := range b.sym {
		put(p, s.v)
		out[p+8] = byte(vrt.B2I(s.g))
		p += 10
	}
}

func (b *Bitmap) ToBufferWithCopy() []byte { return append([]byte(nil), b.ToBuffer()...) }
func (b *Bitmap) LenInBytes() int          { return b.size() + 10*slack }

func get(d []byte) uint64 {
	return uint64(d[0]) | uint64(d[1])<<8 | uint64(d[2])<<16 | uint64(d[3])<<24 | uint64(d[4])<<32 |
		uint64(d[5])<<40 | uint64(d[6])<<48 | uint64(d[7])<<56
}

func FromBuffer(data []byte) *Bitmap {
	b := decode(data)
	if len(data) >= 8 {
		b.src, b.snap = data, append([]byte(nil), data...)
	}
	return b
}

func decode(data []byte) *Bitmap {
	b := NewBitmap()
	if len(data)%2 != 0 {
		panic("assert")
	}
	if len(data) < 8 {
		return b
	}
	n := int(vrt.Concrete(get(data)))
	for i := 0; i < n && 18+10*i <= len(data); i++ {
		d := data[8+10*i:]
		v := get(d)
		if vrt.IsConcrete(v) && vrt.IsConcrete(uint64(d[8])) {
			if d[8] != 0 {
				b.add(v)
			}
			continue
		}
		b.sym = append(b.sym, item{v, d[8] != 0})
	}
	return b
}
func FromBufferWithCopy(data []byte) *Bitmap { return decode(data) }
