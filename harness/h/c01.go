package h

import (
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

// C01_OneRow: a block of one row.
// Bound: 8 encodings; the id over all of uint64, the value over all of int64.
func C01_OneRow() {
	enc := uint32(vrt.Choose("enc", nEnc))
	b := []blk{{symU("id", 1), symI("val", 1)}}
	write(path("a"), enc, 0, b)
	openCheck(path("a"), b)
}

// C01_TwoRows: a block of two rows in any order, duplicates included.
// Bound: 8 encodings; quick: full range in one section at a time when both
// sections are variable-length; thorough: both at once.
func C01_TwoRows() {
	enc := uint32(vrt.Choose("enc", nEnc))
	b := []blk{{symU("id", 2), symI("val", 2)}}
	if idsVar(enc) && valsVar(enc) && !vrt.Thorough() {
		if vrt.Choose("narrow", 2) == 0 {
			narrow(b[0].vals)
		} else {
			narrowU(b[0].ids)
		}
	}
	write(path("a"), enc, 0, b)
	openCheck(path("a"), b)
}

// C01_ThreeRows: three rows.
// Bound: fixed-width sections full range; a variable-length section full range
// while the other section holds one-byte numbers.
func C01_ThreeRows() {
	enc := uint32(vrt.Choose("enc", nEnc))
	b := []blk{{symU("id", 3), symI("val", 3)}}
	if idsVar(enc) && valsVar(enc) {
		if vrt.Choose("narrow", 2) == 0 {
			narrow(b[0].vals)
		} else {
			narrowU(b[0].ids)
		}
	}
	if !vrt.Thorough() && (idsVar(enc) || valsVar(enc)) {
		// the first row is pinned to one byte
		vrt.Assume(b[0].ids[0] < 128)
		vrt.Assume(b[0].vals[0] >= -16 && b[0].vals[0] < 16)
	}
	write(path("a"), enc, 0, b)
	openCheck(path("a"), b)
}

// C01_Blocks: files of one to four blocks.
// Bound: block row counts from a fixed list of shapes; values and ids symbolic
// (one-byte range when variable-length).
func C01_Blocks() {
	shapes := [][]int{{2}, {1, 1}, {1, 3}, {3, 1, 2}, {1, 1, 1, 1}, {2, 2, 2}}
	enc := uint32(vrt.Choose("enc", nEnc))
	sh := shapes[vrt.Choose("shape", len(shapes))]
	bs := []uint32{0, 4096, 1 << 20}[vrt.Choose("target", 3)]
	if bs == 4096 {
		// every block but the first starts on a page boundary and fits one page
		vrt.Assume(true)
	}
	ids := symU("id", 8)
	vals := symI("val", 8)
	if idsVar(enc) {
		narrowU(ids)
	}
	if valsVar(enc) {
		narrow(vals)
	}
	var bl []blk
	k := 0
	for _, n := range sh {
		bl = append(bl, blk{ids[k : k+n], vals[k : k+n]})
		k += n
	}
	write(path("a"), enc, bs, bl)
	openCheck(path("a"), bl)
}

// C01_Large: blocks crossing page boundaries, next to other blocks.
// Bound: 1..600 filler rows (quick), ..1000 (thorough), with one fully symbolic
// row at the start, in the middle or at the end.
func C01_Large() {
	sizes := []int{250, 251, 600}
	if vrt.Thorough() {
		sizes = []int{5, 100, 250, 251, 252, 500, 600, 900, 1000}
	}
	enc := uint32(vrt.Choose("enc", nEnc))
	n := sizes[vrt.Choose("n", len(sizes))]
	kind := vrt.Choose("kind", 3)
	pos := []int{0, n / 2, n - 1}[vrt.Choose("pos", 3)]
	b := filler(n, kind, 5)
	if vrt.Choose("sym", 2) == 0 {
		b.ids[pos] = vrt.U64("id")
	} else {
		b.vals[pos] = vrt.I64("val")
	}
	bl := []blk{filler(3, kind, 1), b, filler(2, 2-kind, 9)}
	write(path("a"), enc, 1<<20, bl)
	openCheck(path("a"), bl)
}

// C01_Huge: a block of more rows than 16 bits can count.
// Bound: 66000 rows, variable-length ids, one symbolic value.
func C01_Huge() {
	b := blk{make([]uint64, 66000), make([]int64, 66000)}
	for i := range b.ids {
		b.ids[i] = uint64(i)
		b.vals[i] = int64(i % 7)
	}
	b.vals[65999] = vrt.I64("val")
	write(path("a"), 5, 1<<30, []blk{b})
	openCheck(path("a"), []blk{b})
}

// C01_Many: files of many blocks.
// Bound: 74 or 260 (thorough: 1200) blocks of one or two rows, a symbolic id and value in one of them; encodings 0 and 3.
func C01_Many() {
	bl := manyBlocks(true)
	write(path("a"), []uint32{0, 3}[vrt.Choose("enc", 2)], 0, bl)
	openCheck(path("a"), bl)
}

// C01_Runs: long runs of small, equal or evenly spaced numbers, which encode in one byte each.
// Bound: 8 encodings; 130 (thorough: also 300) rows whose ids and values are small with either sign, or all equal, or
// evenly spaced upwards or downwards; one value or id in the middle or at the end is any that needs one byte as well, or
// any at all (symbolic).
func C01_Runs() {
	enc := uint32(vrt.Choose("enc", nEnc))
	n := []int{130, 300}[vrt.Choose("n", 1+vrt.B2I(vrt.Thorough()))]
	b := blk{make([]uint64, n), make([]int64, n)}
	kind := vrt.Choose("kind", 4)
	for i := range b.ids {
		switch kind {
		case 0:
			b.ids[i], b.vals[i] = uint64(i*7%50), int64(i*11%49)-24
		case 1:
			b.ids[i], b.vals[i] = 9, -3
		case 2:
			b.ids[i], b.vals[i] = uint64(i), int64(i)*2-100
		case 3:
			b.ids[i], b.vals[i] = uint64(5*(n-i)), -9*int64(i)
		}
	}
	at := []int{n / 2, n - 1}[vrt.Choose("at", 2)]
	switch vrt.Choose("sym", 3) {
	case 0:
		v := vrt.I64("val")
		vrt.Assume(v >= b.vals[at]-30 && v < b.vals[at]+30)
		b.vals[at] = v
	case 1:
		b.vals[at] = vrt.I64("val")
	case 2:
		b.ids[at] = vrt.U64("id")
	}
	bl := []blk{b, filler(2, 0, 9)}
	write(path("a"), enc, 1<<20, bl)
	openCheck(path("a"), bl)
}

// C01V_Far: files of gigabytes.
// Bound: a block of two rows before or not, a gap of 2 GiB, 4 GiB or 1 TiB (and one page, or 64 bytes, less), blocks of one and two rows
// behind it; encodings 0 and 7, one symbolic id and value.
func C01V_Far() {
	vos.Reset()
	enc := []uint32{0, 7}[vrt.Choose("as", 2)]
	w, err := newWriter("/a", enc, 0)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	var bl []blk
	put := func(b blk) {
		noErr(w.WriteBlock(cpU(b.ids), cpI(b.vals)), "writing a block that fits fails")
		bl = append(bl, b)
	}
	if vrt.Choose("before", 2) == 1 {
		put(blk{[]uint64{3, 8}, []int64{-4, 5}})
	}
	n := []int64{1 << 31, 1 << 32, 1 << 40}[vrt.Choose("gap", 3)] - []int64{0, 64, 4096}[vrt.Choose("less", 3)]
	vos.Stretch("/a", n)
	put(blk{[]uint64{vrt.U64("id")}, []int64{vrt.I64("val")}})
	put(blk{[]uint64{5, 1 << 40}, []int64{7, 7}})
	noErr(w.FinalizeAndClose(), "finalizing fails")
	openCheck("/a", bl)
	r := open("/a")
	if r == nil {
		return
	}
	refAll(bl).match2(r, len(bl))
	bm, err := r.GetGlobalIDBitmap()
	noErr(err, "fetching the id bitmap fails")
	if err == nil {
		vrt.Assert(bm.Contains(bl[len(bl)-2].ids[0]) && bm.Contains(1<<40), "the bitmap misses a stored row")
	}
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("far")
}
