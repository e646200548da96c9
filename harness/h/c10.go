package h

import (
	"errors"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vrt"
)

func metaCheck(fn string, bl []blk) {
	f := decodeFile(readAll(fn))
	if !f.ok {
		return
	}
	vrt.Assert(f.count == uint64(len(bl)), "the recorded block count differs from the number of blocks written")
	if len(f.index) != len(bl) {
		return
	}
	for i := range bl {
		s := statsOf(bl[i])
		for k, e := range []fent{f.index[i], f.heads[i]} {
			at := []string{"index", "block header"}[k]
			vrt.Assert(e.minID == s.minID, "the minimum id in the "+at+" is wrong")
			vrt.Assert(e.maxID == s.maxID, "the maximum id in the "+at+" is wrong")
			vrt.Assert(e.minV == stored(s.minV), "the minimum value in the "+at+" is wrong")
			vrt.Assert(e.maxV == stored(s.maxV), "the maximum value in the "+at+" is wrong")
			vrt.Assert(e.sum == stored(s.sum), "the sum in the "+at+" is wrong")
			vrt.Assert(e.count == uint64(s.count), "the row count in the "+at+" is wrong")
			vrt.Observe("min", e.minV)
			vrt.Observe("sum", e.sum)
		}
		vrt.Assert(len(f.blocks[i].ids) == s.count, "a block holds another number of rows on disk")
		vrt.Assert(sameU(f.blocks[i].ids, bl[i].ids), "the recorded place does not hold the block's rows")
	}
	vrt.Cover("metadata compared")
}

// C10_Fixed: statistics over the full range.
// Bound: fixed-width encodings; up to 3 blocks of up to 3 rows.
func C10_Fixed() {
	shapes := [][]int{{}, {1}, {2}, {3}, {1, 2}, {2, 1, 1}, {3, 3}}
	if vrt.Thorough() {
		shapes = append(shapes, []int{4}, []int{5}, []int{2, 3, 2}, []int{1, 1, 1, 1, 1})
	}
	enc := uint32(vrt.Choose("enc", 4))
	sh := shapes[vrt.Choose("shape", len(shapes))]
	bl := split(symU("id", total(sh)), symI("val", total(sh)), sh)
	write(path("a"), enc, 0, bl)
	metaCheck(path("a"), bl)
}

// C10_Var: statistics of variable-length blocks.
// Bound: one or two rows, the second over the full range in one section.
func C10_Var() {
	enc := 4 + uint32(vrt.Choose("enc", 4))
	n := 1 + vrt.Choose("n", 2)
	b := []blk{{symU("id", n), symI("val", n)}}
	if vrt.Choose("narrow", 2) == 0 {
		narrow(b[0].vals)
	} else {
		narrowU(b[0].ids)
	}
	write(path("a"), enc, 0, b)
	metaCheck(path("a"), b)
}

// C10_Large: large and split blocks.
// Bound: up to 600 filler rows in up to 3 submissions, targets 4096, 8192 and
// 1 MiB; one symbolic id and one symbolic value (one of the two when both
// sections are variable-length).
func C10_Large() {
	enc := uint32(vrt.Choose("enc", nEnc))
	n, kind, target := 251, 0, uint32(4096)
	switch c := vrt.Choose("size", 4); {
	case vrt.Thorough():
		n = []int{251, 252, 380, 600}[c]
		kind = vrt.Choose("kind", 3)
		target = []uint32{100, 4096, 8192, 1 << 20}[vrt.Choose("target", 4)]
	case c == 1:
		kind, target = 1, 1<<20
	case c == 2:
		n, kind, target = 600, 1, 1<<20
	case c == 3:
		n, target = 600, 8192
	}
	pos := []int{0, n / 2, n - 1}[vrt.Choose("pos", 3)]
	b := filler(n, kind, 5)
	if idsVar(enc) && valsVar(enc) && !vrt.Thorough() {
		if vrt.Choose("sym", 2) == 0 {
			b.ids[pos] = vrt.U64("id")
		} else {
			b.vals[pos] = vrt.I64("val")
		}
	} else {
		b.ids[pos] = vrt.U64("id")
		b.vals[pos] = vrt.I64("val")
	}
	w, err := newWriter(path("a"), enc, target)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	var bl []blk
	for _, x := range []blk{filler(3, 2, 1), b, filler(2, 0, 9)} {
		bl = append(bl, writeSplit(w, x)...)
	}
	noErr(w.FinalizeAndClose(), "finalizing fails")
	metaCheck(path("a"), bl)
}

// C10_Many: files of many blocks.
// Bound: 74 or 260 (thorough: 1200) blocks of one or two rows, a symbolic id and value in one of them.
func C10_Many() {
	bl := manyBlocks(true)
	write(path("a"), 0, 0, bl)
	metaCheck(path("a"), bl)
}

// C10_Cut: statistics of blocks cut from a larger submission.
// Bound: 300 or 480 filler rows of one encoded length cut at a target of 4096 bytes (twice that in thorough), the rest written next, encodings 0 to 3, 5 and 6; symbolic
// id and value in the last row stored, the first one not stored or the last one, in the range that keeps the length.
func C10_Cut() {
	enc := []uint32{0, 1, 2, 3, 5, 6}[vrt.Choose("as", 6)]
	n, target := 300, uint32(4096)
	if vrt.Thorough() && vrt.Choose("large", 2) == 1 {
		n, target = 600, 8192
	}
	if enc > 3 {
		n += n * 3 / 5
	}
	w, err := newWriter(path("p"), enc, target)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	flat := func() blk {
		b := blk{make([]uint64, n), make([]int64, n)}
		for i := range b.ids {
			b.ids[i], b.vals[i] = 5*uint64(i), 3
		}
		return b
	}
	var full *col.BlockFullError
	if !errors.As(w.WriteBlock(flat().ids, flat().vals), &full) {
		vrt.Assert(false, "a submission beyond the target is not cut")
		return
	}
	noErr(w.FinalizeAndClose(), "finalizing fails")
	b := flat()
	pos := []int{full.ItemsWritten - 1, full.ItemsWritten, n - 1}[vrt.Choose("pos", 3)]
	b.ids[pos], b.vals[pos] = vrt.U64("id"), vrt.I64("val")
	if idsVar(enc) {
		vrt.Assume(b.ids[pos] >= 5*uint64(pos)-5 && b.ids[pos] <= 5*uint64(pos)+5)
	}
	if valsVar(enc) {
		vrt.Assume(b.vals[pos] >= -16 && b.vals[pos] < 16)
	}
	w, err = newWriter(path("a"), enc, target)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	bl := writeSplit(w, b)
	vrt.Assert(len(bl[0].ids) == full.ItemsWritten, "rows of the same length are cut elsewhere")
	noErr(w.FinalizeAndClose(), "finalizing fails")
	metaCheck(path("a"), bl)
}
