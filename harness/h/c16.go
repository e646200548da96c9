package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vrt"
)

// rejected issues one call that must be rejected.
func rejected(w *col.Writer, kind int) {
	a, b := symU("bad", 2), symI("badv", 2)
	var err error
	switch kind {
	case 0:
		return
	case 1:
		err = w.WriteBlock(a, b[:1])
	case 2:
		err = w.WriteBlock(a[:1], b)
	case 3:
		err = w.WriteBlock(nil, nil)
	case 4:
		err = w.WriteBlock(a[:0], b[:0])
	case 5:
		err = w.WriteBlock(a[:0], b)
	case 6:
		err = w.WriteBlock(a, nil)
	case 7:
		w.EstimateBlockSize(a, b[:1])
		return
	}
	_, full := err.(*col.BlockFullError)
	vrt.Assert(err != nil && !full, "a block that cannot be written is not rejected")
	vrt.Cover("rejected")
}

// C16_Writer: rejected calls among accepted ones.
// Bound: 0 to 2 blocks of up to 3 symbolic rows, encodings 0, 3, 7 (thorough: all),
// the last block cut by a one-byte target or not; one
// rejected call of 7 kinds before, between or after them, twice.
func C16_Writer() {
	encs := []uint32{0, 3, 7}
	if vrt.Thorough() {
		encs = []uint32{0, 1, 2, 3, 4, 5, 6, 7}
	}
	enc := encs[vrt.Choose("as", len(encs))]
	sh := [][]int{{}, {1}, {2, 1}}[vrt.Choose("shape", 3)]
	target := []uint32{0, 1}[vrt.Choose("target", 2)]
	bl := symBlocks(enc, sh, "")
	kind := 1 + vrt.Choose("kind", 7)
	at := vrt.Choose("at", len(sh)+1)
	var n [2]int
	for f, fn := range []string{path("a"), path("b")} {
		w, err := newWriter(fn, enc, target)
		noErr(err, "creating a file fails")
		if err != nil {
			return
		}
		for i, b := range bl {
			if f == 1 && at == i {
				rejected(w, kind)
				rejected(w, kind)
			}
			n[f] += len(writeSplit(w, b))
		}
		if f == 1 && at == len(bl) {
			rejected(w, kind)
			rejected(w, kind)
		}
		noErr(w.FinalizeAndClose(), "finalizing fails after a rejected call")
	}
	vrt.Assert(n[0] == n[1], "a rejected call changes how later blocks are cut")
	sameFiles(path("a"), path("b"), "a rejected call leaves a trace in the file")
	r := open(path("b"))
	if r == nil {
		return
	}
	vrt.Assert(r.BlockCount() == uint64(n[0]), "a rejected call changes the number of blocks")
	agg, want := r.AggregateWithOptions(col.AggregateOptions{}), refAll(bl)
	vrt.Assert(agg.Count == want.n && agg.Sum == want.sum, "a rejected call changes the statistics")
	r.Close()
}

// C16_Encoding: an encoding that does not exist.
// Bound: any 32-bit encoding above 7 (symbolic), one or two symbolic rows, then
// finalized and compared with a file to which nothing was written.
func C16_Encoding() {
	enc := vrt.U32("enc")
	vrt.Assume(enc >= nEnc)
	rows := 1 + vrt.Choose("rows", 2)
	ids, vals := symU("id", rows), symI("val", rows)
	for f, fn := range []string{path("a"), path("b")} {
		w, err := newWriter(fn, enc, 0)
		if err != nil {
			vrt.Cover("rejected when created")
			return
		}
		if f == 1 {
			err = w.WriteBlock(ids, vals)
			_, full := err.(*col.BlockFullError)
			vrt.Assert(err != nil && !full, "a block is written with an encoding that does not exist")
			w.EstimateBlockSize(ids, vals)
		}
		noErr(w.FinalizeAndClose(), "finalizing fails after a rejected call")
	}
	sameFiles(path("a"), path("b"), "a rejected call leaves a trace in the file")
	r := open(path("b"))
	if r == nil {
		return
	}
	bm, err := r.GetGlobalIDBitmap()
	noErr(err, "the id bitmap cannot be read")
	if err == nil {
		vrt.Assert(bm.IsEmpty(), "a rejected row is in the id bitmap")
	}
	vrt.Cover("rejected when written")
}

// C16_Simple: rejected and empty batches among accepted ones, and calls after close.
// Bound: 0 to 2 batches of up to 2 symbolic rows, encodings 0 and 7, one-byte or
// default target; a mismatched or empty batch of 6 kinds at any place; after the close
// a write, a new target and a second close.
func C16_Simple() {
	enc := []uint32{0, 7}[vrt.Choose("as", 2)]
	sh := [][]int{{}, {2}, {1, 2}}[vrt.Choose("shape", 3)]
	target := []uint32{0, 1}[vrt.Choose("target", 2)]
	n := total(sh)
	ids, vals := make([]uint64, n), symI("val", n)
	if valsVar(enc) {
		narrow(vals)
	}
	for i := range ids {
		ids[i] = uint64(40 - 3*i)
	}
	bl := split(ids, vals, sh)
	kind := vrt.Choose("kind", 6)
	at := vrt.Choose("at", len(sh)+1)
	bad, badv := symU("bad", 2), symI("badv", 2)
	odd := func(sw *col.SimpleWriter) {
		before := sw.TotalItems()
		var err error
		switch kind {
		case 0:
			err = sw.Write(bad, badv[:1])
		case 1:
			err = sw.Write(nil, badv)
		case 2:
			err = sw.Write(bad[:1], badv)
		case 3:
			err = sw.Write(bad, badv[:0])
		case 4:
			noErr(sw.Write(nil, nil), "an empty batch is rejected")
		case 5:
			noErr(sw.Write(bad[:0], badv[:0]), "an empty batch is rejected")
		}
		vrt.Assert((err != nil) == (kind < 4), "a mismatched batch is not rejected")
		vrt.Assert(sw.TotalItems() == before && !sw.IsClosed(), "a rejected batch changes the writer")
	}
	for f, fn := range []string{path("a"), path("b")} {
		sw := newSimple(fn, enc, target)
		if sw == nil {
			return
		}
		for i, b := range bl {
			if f == 1 && i == at {
				odd(sw)
			}
			noErr(sw.Write(b.ids, b.vals), "a batch is rejected after a rejected one")
		}
		if f == 1 && at == len(bl) {
			odd(sw)
		}
		vrt.Assert(!sw.IsClosed(), "an open writer says it is closed")
		simpleClose(sw, n)
		if f == 1 {
			vrt.Assert(sw.Write(bad, badv) != nil, "a closed simple writer accepts rows")
			vrt.Assert(sw.Write(bad, badv[:1]) != nil, "a closed simple writer accepts rows")
			vrt.Assert(sw.SetTargetBlockSize(77) != nil, "a closed simple writer accepts a new block size target")
			vrt.Assert(sw.IsClosed() && sw.TotalItems() == uint64(n), "a call on a closed simple writer changes it")
			noErr(sw.Close(), "closing a closed simple writer fails")
		}
	}
	sameFiles(path("a"), path("b"), "a rejected or empty batch leaves a trace in the file")
	vrt.Cover("compared")
}

// C16_Flush: a mismatched batch while rows are pending.
// Bound: 998 filler rows, a rejected batch of 2000 and 5 rows, then 4 more rows.
func C16_Flush() {
	b := ordered(1002, vrt.Choose("up", 2) == 1, 3)
	x := filler(2000, 1, 9)
	for f, fn := range []string{path("a"), path("b")} {
		sw := newSimple(fn, 0, 4096)
		if sw == nil {
			return
		}
		noErr(sw.Write(b.ids[:998], b.vals[:998]), "a batch is rejected")
		if f == 1 {
			vrt.Assert(sw.Write(x.ids, x.vals[:5]) != nil, "a mismatched batch is not rejected")
			vrt.Assert(sw.Write(x.ids[:5], x.vals) != nil, "a mismatched batch is not rejected")
			vrt.Assert(sw.TotalItems() == 0, "a rejected batch is counted")
		}
		noErr(sw.Write(b.ids[998:], b.vals[998:]), "a batch is rejected after a rejected one")
		simpleClose(sw, 1002)
	}
	sameFiles(path("a"), path("b"), "a rejected or empty batch leaves a trace in the file")
	vrt.Cover("compared")
}

// C16_Flushed: a mismatched batch after rows were flushed.
// Bound: 1000 or 1300 filler rows, which are flushed, a rejected batch of 6 kinds with symbolic rows,
// then 2 more rows, optionally another 1000; default or 4096-byte target.
func C16_Flushed() {
	n := []int{1000, 1300}[vrt.Choose("first", 2)]
	target := []uint32{0, 4096}[vrt.Choose("target", 2)]
	kind := vrt.Choose("kind", 6)
	again := vrt.Choose("again", 2) == 1
	b := ordered(n+1002, true, 3)
	bad, badv := symU("bad", 3), symI("badv", 3)
	x := filler(2000, 1, 9)
	for f, fn := range []string{path("a"), path("b")} {
		sw := newSimple(fn, 0, target)
		if sw == nil {
			return
		}
		noErr(sw.Write(b.ids[:n], b.vals[:n]), "a batch is rejected")
		if f == 1 {
			before := sw.TotalItems()
			var err error
			switch kind {
			case 0:
				err = sw.Write(bad, badv[:1])
			case 1:
				err = sw.Write(bad[:1], badv)
			case 2:
				err = sw.Write(bad[:2], badv)
			case 3:
				err = sw.Write(nil, badv)
			case 4:
				err = sw.Write(x.ids, x.vals[:1999])
			case 5:
				err = sw.Write(x.ids[:1999], x.vals)
			}
			vrt.Assert(err != nil, "a mismatched batch is not rejected")
			vrt.Assert(sw.TotalItems() == before && !sw.IsClosed(), "a rejected batch changes the writer")
		}
		noErr(sw.Write(b.ids[n:n+2], b.vals[n:n+2]), "a batch is rejected after a rejected one")
		end := n + 2
		if again {
			end += 1000
			noErr(sw.Write(b.ids[n+2:], b.vals[n+2:]), "a batch is rejected after a rejected one")
		}
		simpleClose(sw, end)
	}
	sameFiles(path("a"), path("b"), "a rejected or empty batch leaves a trace in the file")
	vrt.Cover("compared")
}

// C16_Reader: reads of blocks that do not exist.
// Bound: files of 0 to 3 blocks, any 64-bit block number (symbolic), between reads of the blocks there are.
func C16_Reader() {
	sh := [][]int{{}, {1}, {1, 1, 2}}[vrt.Choose("shape", 3)]
	bl := symBlocks(0, sh, "")
	fn := path("a")
	write(fn, 0, 0, bl)
	r := open(fn)
	if r == nil {
		return
	}
	k := vrt.U64("block")
	vrt.Assume(k >= uint64(len(sh)))
	for i := 0; i < 2; i++ {
		ids, vals, err := r.GetPairs(k)
		vrt.Assert(err != nil && len(ids) == 0 && len(vals) == 0, "a block that does not exist is read")
		expectBlocks(r, bl)
	}
	agg, want := r.AggregateWithOptions(col.AggregateOptions{}), refAll(bl)
	vrt.Assert(agg.Count == want.n && agg.Sum == want.sum, "a rejected read changes the aggregates")
	vrt.Cover("rejected")
}
