package h

import (
	"os"

	"vibe-lsm/zzverif/vrt"
)

func checkFile(fn string, enc uint32, bl []blk) {
	f := decodeFile(readAll(fn))
	if !f.ok {
		return
	}
	vrt.Assert(f.enc == enc, "the file header records another encoding")
	vrt.Assert(f.count == uint64(len(bl)), "the file records another number of blocks")
	if len(f.blocks) != len(bl) {
		return
	}
	for i := range bl {
		vrt.Assert(f.encs[i] == enc, "a block header records another encoding")
		vrt.Assert(len(f.blocks[i].ids) == len(bl[i].ids) && len(f.blocks[i].vals) == len(bl[i].vals), "a block holds another number of rows on disk")
		vrt.Assert(sameU(f.blocks[i].ids, bl[i].ids), "ids on disk differ from the ids written")
		vrt.Assert(sameI(f.blocks[i].vals, bl[i].vals), "values on disk differ from the values written")
	}
	vrt.Observe("bitmap", f.boff)
	vrt.Cover("decoded")
}

// C09_WriteTwo: one block of two rows decodes by the document.
// Bound: 8 encodings; two rows over the full range (one section at a time when
// both are variable-length).
func C09_WriteTwo() {
	enc := uint32(vrt.Choose("enc", nEnc))
	b := []blk{{symU("id", 2), symI("val", 2)}}
	if idsVar(enc) && valsVar(enc) {
		if vrt.Choose("narrow", 2) == 0 {
			narrow(b[0].vals)
		} else {
			narrowU(b[0].ids)
		}
	}
	write(path("a"), enc, 0, b)
	checkFile(path("a"), enc, b)
}

// C09_WriteShapes: files of zero to four blocks, rows of one to three.
// Bound: listed shapes, symbolic rows (one-byte numbers in variable-length sections).
func C09_WriteShapes() {
	shapes := [][]int{{}, {3}, {1, 1}, {2, 1, 1}, {1, 1, 1, 1}}
	enc := uint32(vrt.Choose("enc", nEnc))
	b := symBlocks(enc, shapes[vrt.Choose("shape", len(shapes))], "")
	write(path("a"), enc, 0, b)
	checkFile(path("a"), enc, b)
}

// C09_WriteLarge: blocks that end before, on and after page boundaries.
// Bound: filler rows with one symbolic row; 3 blocks.
func C09_WriteLarge() {
	enc := uint32(vrt.Choose("enc", nEnc))
	sizes := []int{246, 247, 248, 250, 251, 252, 506}
	if vrt.Thorough() {
		sizes = append(sizes, 245, 249, 253, 500, 507, 508, 1000)
	}
	n := sizes[vrt.Choose("n", len(sizes))]
	kind := vrt.Choose("kind", 2)
	b := filler(n, kind, 5)
	b.ids[n/2] = vrt.U64("id")
	b.vals[n-1] = vrt.I64("val")
	if idsVar(enc) && valsVar(enc) {
		narrow(b.vals[n-1:])
	}
	bl := []blk{filler(2, 0, 1), b, filler(1, 0, 9)}
	write(path("a"), enc, 1<<20, bl)
	checkFile(path("a"), enc, bl)
}

// C09_Read: the reader returns the rows of a file laid out by an independent encoder.
// Bound: 8 encodings, shapes up to three blocks, any creation time, checksum and
// target fields, either section order, sections adjacent or 8 bytes apart, bitmap before or after the blocks.
func C09_Read() {
	shapes := [][]int{{}, {1}, {2}, {1, 2}, {2, 1, 1}}
	enc := uint32(vrt.Choose("enc", nEnc))
	shape := shapes[vrt.Choose("shape", len(shapes))]
	b := symBlocks(enc, shape, "")
	o := encOpts{target: uint64(vrt.U32("target")), created: vrt.U64("created"), checksum: vrt.U64("checksum"),
		swap: vrt.Choose("swap", 2) == 1, gap: 8 * vrt.Choose("gap", 2), earlyBitmap: vrt.Choose("early", 2) == 1}
	noErr(os.WriteFile(path("a"), encodeFile(enc, b, o), 0644), "write")
	readForeign(path("a"), enc, b)
}

// C09_ReadFull: two rows over the full range, plain options.
// Bound: as C09_WriteTwo.
func C09_ReadFull() {
	enc := uint32(vrt.Choose("enc", nEnc))
	b := []blk{{symU("id", 2), symI("val", 2)}}
	if idsVar(enc) && valsVar(enc) {
		if vrt.Choose("narrow", 2) == 0 {
			narrow(b[0].vals)
		} else {
			narrowU(b[0].ids)
		}
	}
	noErr(os.WriteFile(path("a"), encodeFile(enc, b, encOpts{target: 16384}), 0644), "write")
	readForeign(path("a"), enc, b)
}

func readForeign(fn string, enc uint32, b []blk) {
	r := open(fn)
	if r == nil {
		return
	}
	expectBlocks(r, b)
	vrt.Assert(r.EncodingType() == enc, "the reader reports another encoding")
	refAll(b).match2(r, len(b))
	bm, err := r.GetGlobalIDBitmap()
	noErr(err, "fetching the id bitmap fails")
	if err == nil {
		x := vrt.U64("probe")
		want := false
		for i := range b {
			want = vrt.Or(want, in(b[i].ids, x))
		}
		vrt.Assert(bm.Contains(x) == want, "the id bitmap of a conforming file is misread")
	}
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("foreign file read")
}
