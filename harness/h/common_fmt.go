package h

import (
	"bytes"
	"os"

	"vibe-lsm/zzverif/vrt"

	"github.com/weaviate/sroar"
)

// An encoder and a decoder written from column_format_spec.md alone.

const (
	magic    = uint64(0x5642455F434F4C00)
	hdrSize  = 64
	bhdrSize = 64
	laySize  = 16
	entSize  = 56
)

func le64(d []byte, p int) uint64 {
	return uint64(d[p]) | uint64(d[p+1])<<8 | uint64(d[p+2])<<16 | uint64(d[p+3])<<24 |
		uint64(d[p+4])<<32 | uint64(d[p+5])<<40 | uint64(d[p+6])<<48 | uint64(d[p+7])<<56
}
func le32(d []byte, p int) uint32 {
	return uint32(d[p]) | uint32(d[p+1])<<8 | uint32(d[p+2])<<16 | uint32(d[p+3])<<24
}
func ap64(d []byte, v uint64) []byte {
	return append(d, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
}
func ap32(d []byte, v uint32) []byte {
	return append(d, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

// signed numbers are stored as sign and magnitude.
func stored(v int64) uint64 {
	return vrt.IteU(v < 0, uint64(-v)|1<<63, uint64(v))
}

// stats are the documented per-block statistics.
type stats struct {
	minID, maxID uint64
	minV, maxV   int64
	sum          int64
	count        int
}

func statsOf(b blk) stats {
	s := stats{minID: b.ids[0], maxID: b.ids[0], minV: b.vals[0], maxV: b.vals[0], count: len(b.ids)}
	for i := range b.ids {
		s.minID = vrt.IteU(b.ids[i] < s.minID, b.ids[i], s.minID)
		s.maxID = vrt.IteU(b.ids[i] > s.maxID, b.ids[i], s.maxID)
		s.minV = vrt.IteI(b.vals[i] < s.minV, b.vals[i], s.minV)
		s.maxV = vrt.IteI(b.vals[i] > s.maxV, b.vals[i], s.maxV)
		s.sum += b.vals[i]
	}
	return s
}

// fent is one index entry, fimg a decoded file.
type fent struct {
	off, size              uint64
	minID, maxID           uint64
	minV, maxV, sum, count uint64
}

type fimg struct {
	ok                  bool
	version, coltype    uint32
	count               uint64
	target, compr, enc  uint32
	created, boff, bsiz uint64
	bmap                []byte // serialised id bitmap
	footer              int
	index               []fent
	heads               []fent // from the blocks' own headers (off, size unset)
	encs                []uint32
	blocks              []blk
	sections            []int // bytes of header, layout and data per block
	size                int
}

// decVar decodes n variable-length numbers that must fill d exactly.
func decVar(d []byte, n int) ([]uint64, bool) {
	out := make([]uint64, 0, n)
	p := 0
	for i := 0; i < n; i++ {
		var v uint64
		for k := 0; ; k++ {
			if p >= len(d) || k >= 10 {
				return out, false
			}
			c := d[p]
			p++
			v |= uint64(c&0x7f) << uint(7*k)
			if c&0x80 == 0 {
				break
			}
		}
		out = append(out, v)
	}
	return out, p == len(d)
}

func decFixed(d []byte, n int) ([]uint64, bool) {
	out := make([]uint64, 0, n)
	for i := 0; i < n && 8*i+8 <= len(d); i++ {
		out = append(out, le64(d, 8*i))
	}
	return out, len(d) == 8*n
}

func undelta(a []uint64) {
	for i := 1; i < len(a); i++ {
		a[i] += a[i-1]
	}
}

func unzig(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

func decodeSections(enc uint32, ib, vb []byte, n int) (blk, bool) {
	var b blk
	var ok1, ok2 bool
	if idsVar(enc) {
		b.ids, ok1 = decVar(ib, n)
	} else {
		b.ids, ok1 = decFixed(ib, n)
	}
	if idsDelta(enc) {
		undelta(b.ids)
	}
	var u []uint64
	if valsVar(enc) {
		u, ok2 = decVar(vb, n)
		for i := range u {
			u[i] = uint64(unzig(u[i]))
		}
	} else {
		u, ok2 = decFixed(vb, n)
	}
	if valsDelta(enc) {
		undelta(u)
	}
	b.vals = make([]int64, len(u))
	for i := range u {
		b.vals[i] = int64(u[i])
	}
	return b, ok1 && ok2
}

// must asserts a fact about the layout; a failure ends the decoding.
func (f *fimg) must(c bool, msg string) bool {
	vrt.Assert(c, msg)
	if !c {
		f.ok = false
	}
	return c && f.ok
}

// decodeFile decodes a finalized file, asserting its structure on the way.
func decodeFile(d []byte) *fimg {
	f := &fimg{ok: true, size: len(d)}
	if !f.must(len(d) >= hdrSize+4+24, "the file is shorter than header and footer") {
		return f
	}
	if !f.must(le64(d, 0) == magic, "the header does not start with the magic number") {
		return f
	}
	f.version, f.coltype, f.count = le32(d, 8), le32(d, 12), le64(d, 16)
	f.target, f.compr, f.enc = le32(d, 24), le32(d, 28), le32(d, 32)
	f.created, f.boff, f.bsiz = le64(d, 36), le64(d, 44), le64(d, 52)
	f.must(f.version == 1, "the format version is not 1")
	f.must(f.coltype == 0, "the column type is not 0")
	f.must(f.compr == 0, "the compression type is not 0")
	if !f.must(le64(d, len(d)-8) == magic, "the trailer does not end with the magic number") {
		return f
	}
	fs := le64(d, len(d)-24)
	if !f.must(fs >= 4 && fs <= uint64(len(d)-24-hdrSize), "the recorded footer size is impossible") {
		return f
	}
	f.footer = len(d) - 24 - int(fs)
	f.must(f.footer%page == 0, "the footer is not page-aligned")
	n := uint64(le32(d, f.footer))
	if !f.must(n == f.count, "header and index record different block counts") {
		return f
	}
	if !f.must(fs == 4+entSize*n, "the recorded footer size does not match the index") {
		return f
	}
	end := hdrSize
	for i := 0; i < int(n); i++ {
		p := f.footer + 4 + entSize*i
		e := fent{off: le64(d, p), size: uint64(le32(d, p+8)), minID: le64(d, p+12), maxID: le64(d, p+20),
			minV: le64(d, p+28), maxV: le64(d, p+36), sum: le64(d, p+44), count: uint64(le32(d, p+52))}
		f.index = append(f.index, e)
		if !f.must(e.off == uint64(end), "a block does not start where the one before it ends") {
			return f
		}
		if !f.must(e.size >= bhdrSize+laySize && e.off+e.size <= uint64(f.footer), "a recorded block size is impossible") {
			return f
		}
		b := int(e.off)
		end = b + int(e.size)
		f.must(end%page == 0, "a block does not end on a page boundary")
		f.heads = append(f.heads, fent{minID: le64(d, b), maxID: le64(d, b+8), minV: le64(d, b+16), maxV: le64(d, b+24),
			sum: le64(d, b+32), count: uint64(le32(d, b+40))})
		f.encs = append(f.encs, le32(d, b+44))
		f.must(le32(d, b+48) == 0, "a block's compression type is not 0")
		io, is := le32(d, b+64), le32(d, b+68)
		vo, vs := le32(d, b+72), le32(d, b+76)
		base := b + bhdrSize + laySize
		if !f.must(io == 0 && vo == is, "the sections are not adjacent, ids first") {
			return f
		}
		used := bhdrSize + laySize + int(is) + int(vs)
		if !f.must(used <= int(e.size), "a block's sections exceed the block") {
			return f
		}
		f.sections = append(f.sections, used)
		f.must(int(e.size)-used < page, "a block is padded by a page or more")
		f.must(allZero(d[b+used:end]), "padding is not zero")
		blk, ok := decodeSections(f.enc, d[base:base+int(is)], d[base+int(is):base+int(is)+int(vs)], int(e.count))
		if !f.must(ok, "a section does not hold exactly the recorded number of rows") {
			return f
		}
		f.blocks = append(f.blocks, blk)
	}
	if !f.must(f.boff == uint64(end), "the id bitmap does not follow the last block") {
		return f
	}
	if !f.must(f.bsiz >= 4 && f.boff+f.bsiz <= uint64(f.footer), "the recorded bitmap place is impossible") {
		return f
	}
	bn := le32(d, int(f.boff))
	if !f.must(uint64(bn)+4 == f.bsiz, "bitmap size and size prefix disagree") {
		return f
	}
	f.bmap = d[f.boff+4 : f.boff+f.bsiz]
	f.must(f.footer-int(f.boff+f.bsiz) < page, "the footer is padded by a page or more")
	f.must(allZero(d[f.boff+f.bsiz:f.footer]), "padding before the footer is not zero")
	return f
}

func allZero(d []byte) bool { return bytes.Equal(d, make([]byte, len(d))) }

func readAll(fn string) []byte {
	d, err := os.ReadFile(fn)
	noErr(err, "the file cannot be read back")
	return d
}

// enc-side of the independent codec.
func encVar(d []byte, v uint64) []byte {
	for v >= 0x80 {
		d = append(d, byte(v)|0x80)
		v >>= 7
	}
	return append(d, byte(v))
}

func zig(v int64) uint64 { return uint64(v)<<1 ^ uint64(v>>63) }

func encSections(enc uint32, b blk) (ids, vals []byte) {
	var pi, pv uint64
	for i := range b.ids {
		x, y := b.ids[i], uint64(b.vals[i])
		if idsDelta(enc) {
			x, pi = x-pi, x
		}
		if valsDelta(enc) {
			y, pv = y-pv, y
		}
		if idsVar(enc) {
			ids = encVar(ids, x)
		} else {
			ids = ap64(ids, x)
		}
		if valsVar(enc) {
			vals = encVar(vals, zig(int64(y)))
		} else {
			vals = ap64(vals, y)
		}
	}
	return
}

func pad(d []byte) []byte {
	if r := len(d) % page; r != 0 {
		d = append(d, make([]byte, page-r)...)
	}
	return d
}

// encOpts are the freedoms a conforming writer has.
type encOpts struct {
	target, created, checksum uint64
	swap                      bool // value section first
	gap                       int  // unused bytes before each section
	earlyBitmap               bool // bitmap before the blocks
}

func encodeFile(enc uint32, blocks []blk, o encOpts) []byte {
	set := sroar.NewBitmap()
	for _, b := range blocks {
		for _, id := range b.ids {
			set.Set(id)
		}
	}
	bm := append([]byte(nil), set.ToBuffer()...)
	var boff int
	putBitmap := func(d []byte) []byte {
		boff = len(d)
		d = ap32(d, uint32(len(bm)))
		return append(d, bm...)
	}
	d := make([]byte, hdrSize)
	if o.earlyBitmap {
		d = pad(putBitmap(d))
	}
	var idx []byte
	for _, b := range blocks {
		s := statsOf(b)
		off := len(d)
		for k := 0; k < 2; k++ {
			var e []byte
			e = ap64(e, s.minID)
			e = ap64(e, s.maxID)
			e = ap64(e, stored(s.minV))
			e = ap64(e, stored(s.maxV))
			e = ap64(e, stored(s.sum))
			e = ap32(e, uint32(s.count))
			if k == 0 {
				d = append(d, e...)
				d = ap32(d, enc)
				d = ap32(d, 0)
				d = ap32(d, 0)
				d = ap32(d, 0)
				d = ap32(d, uint32(o.checksum))
				ib, vb := encSections(enc, b)
				// the layout records where each section is, relative to the data
				first, second := ib, vb
				if o.swap {
					first, second = vb, ib
				}
				fo := o.gap
				so := fo + len(first) + o.gap
				io, vo := fo, so
				if o.swap {
					io, vo = so, fo
				}
				d = ap32(d, uint32(io))
				d = ap32(d, uint32(len(ib)))
				d = ap32(d, uint32(vo))
				d = ap32(d, uint32(len(vb)))
				fill := bytes.Repeat([]byte{0x81}, o.gap)
				d = append(append(d, fill...), first...)
				d = append(append(d, fill...), second...)
				d = pad(d)
			} else {
				idx = ap64(idx, uint64(off))
				idx = ap32(idx, uint32(len(d)-off))
				idx = append(idx, e...)
			}
		}
	}
	if !o.earlyBitmap {
		d = putBitmap(d)
	}
	d = pad(d)
	d = ap32(d, uint32(len(blocks)))
	d = append(d, idx...)
	d = ap64(d, uint64(4+len(idx)))
	d = ap64(d, o.checksum)
	d = ap64(d, magic)
	var h []byte
	h = ap64(h, magic)
	h = ap32(h, 1)
	h = ap32(h, 0)
	h = ap64(h, uint64(len(blocks)))
	h = ap32(h, uint32(o.target))
	h = ap32(h, 0)
	h = ap32(h, enc)
	h = ap64(h, o.created)
	h = ap64(h, uint64(boff))
	h = ap64(h, uint64(4+len(bm)))
	copy(d, h)
	return d
}
