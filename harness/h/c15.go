package h

import (
	"os"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vrt"
)

// compact is a small file without padding and without a bitmap: two blocks of
// two rows. It returns the places of the first block and of the index.
func compact(enc uint32, bl []blk) (d []byte, blockAt []int, indexAt int) {
	d = make([]byte, hdrSize)
	var idx []byte
	for _, b := range bl {
		at := len(d)
		blockAt = append(blockAt, at)
		s := statsOf(b)
		var e []byte
		for _, x := range []uint64{s.minID, s.maxID, stored(s.minV), stored(s.maxV), stored(s.sum)} {
			e = ap64(e, x)
		}
		e = ap32(e, uint32(s.count))
		ib, vb := encSections(enc, b)
		d = append(d, e...)
		d = ap32(d, enc)
		d = append(d, make([]byte, 16)...)
		for _, x := range []int{0, len(ib), len(ib), len(vb)} {
			d = ap32(d, uint32(x))
		}
		d = append(append(d, ib...), vb...)
		idx = ap64(idx, uint64(at))
		idx = ap32(idx, uint32(len(d)-at))
		idx = append(idx, e...)
	}
	indexAt = len(d)
	d = ap32(d, uint32(len(bl)))
	d = append(d, idx...)
	d = ap64(d, uint64(4+len(idx)))
	d = ap64(d, 0)
	d = ap64(d, magic)
	copy(d, headerOf(enc, len(bl)))
	return
}

func headerOf(enc uint32, n int) []byte {
	var h []byte
	h = ap64(h, magic)
	h = ap32(h, 1)
	h = ap32(h, 0)
	h = ap64(h, uint64(n))
	h = ap32(h, 4096)
	h = ap32(h, 0)
	h = ap32(h, enc)
	return h
}

func two(enc uint32) []blk {
	return []blk{{[]uint64{5, 9}, []int64{-3, 40}}, {[]uint64{300, 70000, 1 << 50}, []int64{1 << 40, -1, -1 << 63}}}
}

func symBytes(d []byte, from, n int) {
	for i := 0; i < n; i++ {
		d[from+i] = vrt.U8("byte", from+i)
	}
}

// present decodes as many numbers of a section as the file holds.
func present(d []byte, from, to int, count uint64, variable bool) []uint64 {
	var out []uint64
	if to > len(d) {
		to = len(d)
	}
	for p := from; uint64(len(out)) < count; {
		if !variable {
			if p+8 > to {
				break
			}
			out = append(out, le64(d, p))
			p += 8
			continue
		}
		var v uint64
		k := 0
		for ; k < 10 && p+k < to; k++ {
			c := d[p+k]
			v |= uint64(c&0x7f) << uint(7*k)
			if c&0x80 == 0 {
				break
			}
		}
		if k == 10 || p+k >= to {
			break
		}
		p += k + 1
		out = append(out, v)
	}
	return out
}

// hostile opens any bytes and reads blocks of what opens.
func hostile(d []byte, fields bool) {
	fn := path("a")
	noErr(os.WriteFile(fn, d, 0644), "the file cannot be made")
	vrt.AllocLimit(1 << 24)
	vrt.StepLimit(3_000_000, "opening or reading a damaged file does not end")
	r, err := col.NewReader(fn)
	if err != nil {
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("opened")
	vrt.Observe("version", uint64(r.Version()))
	enc := r.EncodingType()
	for i := 0; i < 3; i++ {
		ids, vals, err := r.GetPairs(uint64(i))
		if err != nil {
			vrt.Cover("block rejected")
			continue
		}
		vrt.Cover("block read")
		vrt.Assert(len(ids) == len(vals), "a block is returned with different numbers of ids and values")
		vrt.Observe("rows", uint64(len(ids)))
		if fields && len(ids) == len(vals) {
			genuine(d, i, enc, ids, vals)
		}
	}
	_, _, err = r.GetPairs(vrt.U64("block") | 4)
	vrt.Assert(err != nil, "a block that does not exist is read")
	r.Close()
}

// genuine asserts that the rows of block i are in the file.
func genuine(d []byte, i int, enc uint32, ids []uint64, vals []int64) {
	if len(ids) == 0 {
		return
	}
	at := vrt.ConcreteInt(len(d) - 24 - int(le64(d, len(d)-24)))
	e := at + 4 + entSize*i
	off := vrt.ConcreteInt(int(le64(d, e)))
	end := len(d)
	if size := vrt.ConcreteInt(int(le32(d, e+8))); size < end-off {
		end = off + size
	}
	if off < 0 || off+80 > end {
		vrt.Assert(false, "rows are returned for a block that is not in the file")
		return
	}
	count := uint64(le32(d, e+52))
	base := off + 80
	var sec [2][]uint64
	for k := 0; k < 2; k++ {
		from := base + vrt.ConcreteInt(int(le32(d, off+64+8*k)))
		to := from + vrt.ConcreteInt(int(le32(d, off+68+8*k)))
		if to > end {
			to = end
		}
		n := count
		if n > uint64(len(ids)) {
			n = uint64(len(ids))
		}
		sec[k] = present(d, from, to, n, k == 0 && vrt.Known(idsVar(enc)) && idsVar(enc) || k == 1 && valsVar(enc))
	}
	vrt.Assert(len(sec[0]) >= len(ids) && len(sec[1]) >= len(vals), "rows are returned that are not in the file")
	if len(sec[0]) < len(ids) || len(sec[1]) < len(vals) {
		return
	}
	if idsDelta(enc) {
		undelta(sec[0])
	}
	if valsVar(enc) {
		for k := range sec[1] {
			sec[1][k] = uint64(unzig(sec[1][k]))
		}
	}
	if valsDelta(enc) {
		undelta(sec[1])
	}
	for k := range ids {
		vrt.Assert(ids[k] == sec[0][k] && uint64(vals[k]) == sec[1][k], "a row is returned that differs from the one in the file")
	}
	vrt.Cover("rows in the file")
}

// C15_Header: any header.
// Bound: a file of two blocks with all 64 header bytes symbolic.
func C15_Header() {
	d, _, _ := compact(uint32(vrt.Choose("as", 2)*7), two(0))
	symBytes(d, 0, 64)
	hostile(d, true)
}

// C15_Trailer: any trailer and index count.
// Bound: a file of two blocks with the 24 trailer bytes symbolic, and the index
// count in addition in one case.
func C15_Trailer() {
	d, _, at := compact(0, two(0))
	symBytes(d, len(d)-24, 24)
	if vrt.Choose("count", 2) == 1 {
		symBytes(d, at, 4)
		vrt.Assume(le64(d, len(d)-24) == uint64(len(d)-24-at))
	}
	hostile(d, true)
}

// C15_Index: any index entry.
// Bound: one of two entries with its count and its offset or its size symbolic; 4 encodings.
func C15_Index() {
	enc := []uint32{0, 3, 4, 7}[vrt.Choose("enc", 4)]
	d, _, at := compact(enc, two(enc))
	e := at + 4 + entSize*vrt.Choose("entry", 2)
	switch vrt.Choose("field", 3) {
	case 0:
		symBytes(d, e, 8)
	case 1:
		symBytes(d, e+8, 4)
		symBytes(d, e+52, 4)
	case 2:
		symBytes(d, e+12, 44)
	}
	hostile(d, true)
}

// C15_Layout: any section layout.
// Bound: two of the four layout fields of one block symbolic, 4 encodings.
func C15_Layout() {
	enc := []uint32{0, 3, 4, 7}[vrt.Choose("enc", 4)]
	d, at, _ := compact(enc, two(enc))
	l := at[vrt.Choose("in", 2)] + 64
	pairs := [][2]int{{0, 1}, {2, 3}, {1, 3}, {0, 2}}
	p := pairs[vrt.Choose("fields", 4)]
	symBytes(d, l+4*p[0], 4)
	symBytes(d, l+4*p[1], 4)
	hostile(d, true)
}

// C15_Sections: any section contents and row count.
// Bound: one block whose two sections are 1 to 6 symbolic bytes each, any row
// count in the index, 8 encodings.
func C15_Sections() {
	enc := uint32(vrt.Choose("enc", nEnc))
	n, m := 1+vrt.Choose("n", 3), 1+vrt.Choose("m", 3)
	if vrt.Thorough() {
		n, m = 2*n, 2*m
	}
	var ib, vb []byte
	for i := 0; i < n+m; i++ {
		if i < n {
			ib = append(ib, vrt.U8("sec", i))
		} else {
			vb = append(vb, vrt.U8("sec", i))
		}
	}
	hostile(sections(enc, ib, vb), true)
}

// sections is a file of one block with the given sections, any row count in the index.
func sections(enc uint32, ib, vb []byte) []byte {
	d, at, _ := compact(enc, two(enc)[:1])
	d = d[:at[0]+64]
	d = ap32(ap32(ap32(ap32(d, 0), uint32(len(ib))), uint32(len(ib))), uint32(len(vb)))
	d = append(append(d, ib...), vb...)
	size := len(d) - at[0]
	f := len(d)
	d = ap32(d, 1)
	d = ap64(d, uint64(at[0]))
	d = ap32(d, uint32(size))
	d = append(d, make([]byte, 40)...)
	d = ap32(d, vrt.U32("count"))
	d = ap64(d, uint64(len(d)-f))
	d = ap64(d, 0)
	d = ap64(d, magic)
	copy(d, headerOf(enc, 1))
	return d
}

// C15_Long: numbers at and beyond the longest that fit 64 bits.
// Bound: one block with a section of 0 or 2 one-byte numbers followed by a number of 9 to 11
// continued bytes, any bits in them, and 3 more symbolic bytes; the other section of 3 symbolic
// bytes; 4 variable-length encodings, any row count in the index.
func C15_Long() {
	enc := 4 + uint32(vrt.Choose("enc", 4))
	var long, short []byte
	for i := vrt.Choose("before", 2) * 2; i > 0; i-- {
		long = append(long, byte(i))
	}
	for i := 9 + vrt.Choose("run", 3); i > 0; i-- {
		long = append(long, vrt.U8("long", i)|0x80)
	}
	for i := 0; i < 3; i++ {
		long = append(long, vrt.U8("after", i))
		short = append(short, vrt.U8("sec", i))
	}
	ib, vb := long, short
	if vrt.Choose("in", 2) == 1 {
		ib, vb = vb, ib
	}
	hostile(sections(enc, ib, vb), true)
}

// C15_Cut: truncated and spliced files.
// Bound: a file of two blocks cut at any length, or with any part before the
// index removed, or with 1 to 30 zero or repeated bytes appended; 3 encodings.
func C15_Cut() {
	enc := []uint32{0, 3, 7}[vrt.Choose("enc", 3)]
	d, _, at := compact(enc, two(enc))
	switch vrt.Choose("how", 3) {
	case 0:
		d = d[:vrt.Choose("len", len(d))]
	case 1:
		k := 64 + vrt.Choose("from", at-64)
		d = append(append([]byte(nil), d[:k]...), d[at:]...)
	case 2:
		n := 1 + vrt.Choose("more", 30)
		if vrt.Choose("zero", 2) == 1 {
			d = append(d, make([]byte, n)...)
		} else {
			d = append(d, d[len(d)-n:]...)
		}
	}
	hostile(d, true)
}

// C15_Tiny: every short file.
// Bound: files of 13 sizes from 0 to 92 bytes, and of 120 (148 in the thorough
// check) bytes, all bytes symbolic.
func C15_Tiny() {
	sizes := []int{0, 1, 8, 23, 24, 63, 64, 65, 87, 88, 89, 91, 92, 120}
	n := sizes[vrt.Choose("size", len(sizes))]
	if n == 120 && vrt.Thorough() {
		n = 148
	}
	d := make([]byte, n)
	symBytes(d, 0, n)
	hostile(d, false)
}
