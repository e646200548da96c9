package h

import (
	"fmt"
	"os"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vrt"
)

// describes asserts what the reader and the header say about a file.
func describes(fn string, enc, target uint32, n int) {
	d, err := os.ReadFile(fn)
	noErr(err, "the file cannot be read back")
	if err != nil || len(d) < hdrSize {
		vrt.Assert(false, "the file has no header")
		return
	}
	vrt.Assert(le64(d, 0) == magic && le32(d, 8) == 1, "the header does not record the format version")
	vrt.Assert(le64(d, 16) == uint64(n), "the header does not record the number of blocks")
	vrt.Assert(le32(d, 24) == target, "the header does not record the configured block size target")
	vrt.Assert(le32(d, 32) == enc, "the header does not record the configured encoding")
	vrt.Assert(le32(d, 12) == 0 && le32(d, 28) == 0, "the header records another column type or compression than none")
	r := open(fn)
	if r == nil {
		return
	}
	for i := 0; i < 2; i++ {
		vrt.Assert(r.Version() == 1, "the reader reports another format version")
		vrt.Assert(r.EncodingType() == enc, "the reader reports another encoding than configured")
		vrt.Assert(r.IsDeltaEncoded() == vrt.Or(idsDelta(enc), valsDelta(enc)), "the reader misreports whether the file is delta encoded")
		vrt.Assert(r.IsVarIntEncoded() == vrt.Or(idsVar(enc), valsVar(enc)), "the reader misreports whether the file is variable-length encoded")
		vrt.Assert(r.BlockCount() == uint64(n), "the reader reports another number of blocks than written")
		vrt.Observe("enc", uint64(r.EncodingType()))
		vrt.Observe("delta", uint64(vrt.B2I(r.IsDeltaEncoded())))
		vrt.Observe("n", r.BlockCount())
		for k := 0; k < n; k++ {
			_, _, err := r.GetPairs(uint64(k))
			noErr(err, "a counted block cannot be read")
		}
		if i == 0 {
			r.Aggregate()
			_, err := r.GetGlobalIDBitmap()
			noErr(err, "the id bitmap cannot be read")
		}
	}
	_, _, err = r.GetPairs(uint64(n))
	vrt.Assert(err != nil, "a block beyond the count can be read")
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("described")
}

func encoding() uint32 {
	enc := vrt.U32("enc")
	vrt.Assume(enc < nEnc)
	return enc
}

// C21_Empty: a file without blocks.
// Bound: any of the 8 encodings (symbolic), any 32-bit block size target, or the default one.
func C21_Empty() {
	enc := encoding()
	target := uint32(0)
	if vrt.Choose("default", 2) == 0 {
		target = vrt.U32("target")
		vrt.Assume(target != 0)
	}
	fn := path("a")
	w, err := newWriter(fn, enc, target)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	if target == 0 {
		target = 16384
	}
	noErr(w.FinalizeAndClose(), "finalizing fails")
	describes(fn, enc, target, 0)
}

// C21_Blocks: files with blocks.
// Bound: 1 to 3 blocks of one or two rows of symbolic values, encodings 0 to 7, any 32-bit
// block size target; blocks of two rows may be cut in two by it.
func C21_Blocks() {
	enc := uint32(vrt.Choose("as", nEnc))
	sh := [][]int{{1}, {2, 1}, {1, 1, 2}}[vrt.Choose("shape", 3)]
	bl := symBlocks(enc, sh, "")
	target := vrt.U32("target")
	vrt.Assume(target != 0)
	fn := path("a")
	w, err := newWriter(fn, enc, target)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	n := 0
	for _, b := range bl {
		n += len(writeSplit(w, b))
	}
	noErr(w.FinalizeAndClose(), "finalizing fails")
	describes(fn, enc, target, n)
}

// C21_Simple: files of the simple writer.
// Bound: one batch of 0 to 2 rows, encodings 0 to 7, any positive 31-bit block size
// target set by option or by SetTargetBlockSize, before or after the batch.
func C21_Simple() {
	enc := uint32(vrt.Choose("as", nEnc))
	k := vrt.Choose("rows", 3)
	b := symBlocks(enc, []int{2}, "")[0]
	narrow(b.vals)
	b.ids[0], b.ids[1] = 4, 9
	t := vrt.U32("target")
	vrt.Assume(t != 0 && t < 1<<31)
	fn := path("a")
	how := vrt.Choose("how", 3)
	opts := []col.WriterOption{col.WithEncoding(enc)}
	if how == 0 {
		opts = append(opts, col.WithBlockSize(t))
	}
	sw, err := col.NewSimpleWriter(fn, opts...)
	noErr(err, "creating a simple writer fails")
	if err != nil {
		return
	}
	if how == 1 {
		noErr(sw.SetTargetBlockSize(int(t)), "setting the block size target fails")
	}
	noErr(sw.Write(b.ids[:k], b.vals[:k]), "a small batch is rejected")
	if how == 2 {
		noErr(sw.SetTargetBlockSize(int(t)), "setting the block size target fails")
	}
	noErr(sw.Close(), "closing the simple writer fails")
	n := 0
	if k > 0 {
		n = 1
	}
	if k == 2 && t < page-hdrSize {
		n = 2 // a block of any rows is padded to the page
	}
	describes(fn, enc, t, n)
}

// C21_Many: files of many blocks.
// Bound: 74 or 260 (thorough: 1200) blocks of one or two rows, one symbolic value; encodings 0 and 3.
func C21_Many() {
	bl := manyBlocks(false)
	enc := []uint32{0, 3}[vrt.Choose("enc", 2)]
	write(path("a"), enc, 9999, bl)
	describes(path("a"), enc, 9999, len(bl))
}

// C21_Debug: the debug description.
// Bound: 0 to 3 blocks of up to 3 symbolic rows, encodings 0, 3 and 7.
func C21_Debug() {
	enc := []uint32{0, 3, 7}[vrt.Choose("as", 3)]
	sh := [][]int{{}, {1}, {3}, {1, 2}, {2, 1, 1}}[vrt.Choose("shape", 5)]
	bl := symBlocks(enc, sh, "")
	fn := path("a")
	write(fn, enc, 0, bl)
	d, err := os.ReadFile(fn)
	noErr(err, "the file cannot be read back")
	f := decodeFile(d)
	if !f.ok || len(f.index) != len(bl) {
		return
	}
	r := open(fn)
	if r == nil {
		return
	}
	info := r.DebugInfo()
	got := vrt.Lines(info)
	k := 0
	line := func(format string, a ...any) {
		if vrt.Assert(k < len(got), "the debug description lacks a line"); k < len(got) {
			vrt.Assert(got[k] == fmt.Sprintf(format, a...), "the debug description is wrong")
		}
		k++
	}
	line("File header: Magic=0x%X, Version=%d, BlockCount=%d", magic, 1, len(bl))
	line("    Encoding: Type=%d, Compression=%d", enc, 0)
	line("    Footer: Size=%d, Magic=0x%X", 4+entSize*len(bl), magic)
	line("    Block index entries: %d", len(bl))
	for i, b := range bl {
		st := statsOf(b)
		line("      Block %d: Offset=%d, Size=%d, Count=%d", i, f.index[i].off, f.index[i].size, st.count)
		line("        ID range: %d-%d", st.minID, st.maxID)
		line("        Value range: %d-%d, Sum=%d", st.minV, st.maxV, st.sum)
	}
	vrt.Assert(k == len(got), "the debug description has other lines than blocks and headers")
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("debug description")
}
