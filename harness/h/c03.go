package h

import "vibe-lsm/zzverif/vrt"

func aggCheck(fn string, bl []blk) {
	r := open(fn)
	if r == nil {
		return
	}
	refAll(bl).match2(r, len(bl))
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("aggregated")
}

// C03_Shapes: zero to four blocks of one to three rows, fixed-width encodings.
// Bound: encodings 0-3; ids and values over the full 64-bit range; listed shapes.
func C03_Shapes() {
	shapes := [][]int{{}, {1}, {2}, {3}, {1, 1}, {2, 1}, {1, 1, 1}}
	if vrt.Thorough() {
		shapes = append(shapes, []int{4}, []int{2, 2}, []int{1, 1, 1, 1}, []int{1, 3})
	}
	enc := uint32(vrt.Choose("enc", 4))
	sh := shapes[vrt.Choose("shape", len(shapes))]
	n := total(sh)
	bl := split(symU("id", n), symI("val", n), sh)
	write(path("a"), enc, 0, bl)
	aggCheck(path("a"), bl)
}

// C03_VarInt: variable-length encodings, up to two blocks.
// Bound: encodings 4-7; the first value over the full range, further values and
// all ids one byte.
func C03_VarInt() {
	shapes := [][]int{{1}, {2}, {1, 1}}
	enc := 4 + uint32(vrt.Choose("enc", 4))
	sh := shapes[vrt.Choose("shape", len(shapes))]
	n := total(sh)
	ids, vals := symU("id", n), symI("val", n)
	bl := split(ids, vals, sh)
	for _, b := range bl {
		narrowU(b.ids)
	}
	k := vrt.Choose("wide", n)
	for i := range vals {
		if i != k {
			narrow(vals[i : i+1])
		}
	}
	write(path("a"), enc, 0, bl)
	aggCheck(path("a"), bl)
}

// C03_Large: many rows and blocks around one symbolic row.
// Bound: 8 encodings, up to 12 blocks of up to 300 filler rows.
func C03_Large() {
	enc := uint32(vrt.Choose("enc", nEnc))
	kind := 1 + vrt.Choose("kind", 2)
	nb := []int{3, 12}[vrt.Choose("blocks", 2)]
	var bl []blk
	for i := 0; i < nb; i++ {
		bl = append(bl, filler(1+(i*37)%23, kind, uint64(i)))
	}
	bl = append(bl, filler(300, kind, 77))
	b := bl[vrt.Choose("where", 2)*(nb-1)]
	b.vals[len(b.vals)-1] = vrt.I64("val")
	write(path("a"), enc, 1<<20, bl)
	aggCheck(path("a"), bl)
}

// C03_Many: files of many blocks.
// Bound: 74 or 260 (thorough: 1200) blocks of one or two rows, one symbolic value.
func C03_Many() {
	bl := manyBlocks(false)
	write(path("a"), 0, 0, bl)
	r := open(path("a"))
	if r == nil {
		return
	}
	refAll(bl).match2(r, len(bl))
	vrt.Cover("many aggregated")
}
