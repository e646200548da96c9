package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

// step judges one call: if the fault struck during it, it must fail. It
// reports whether the history may go on.
func step(err error, call string) bool {
	if vos.Faulted {
		vrt.Assert(err != nil, call+" reports success though a file operation it issued failed")
		vrt.ObserveS("failed", vos.FaultOp)
		vrt.Cover("fault in " + call)
		return false
	}
	noErr(err, call+" fails without a fault")
	return err == nil
}

// durable asserts that the last write was followed by a sync and that the file is complete.
func durable(fn string, bl []blk) {
	last, sync := -1, -1
	for i, o := range vos.Journal {
		switch o.Kind {
		case 0, 2:
			last = i
		case 1:
			sync = i
		}
	}
	vrt.Assert(sync > last, "a history of successful calls ends without a sync after the last write")
	vos.WFault, vos.Journing = -1, false
	f := decodeFile(vdata(fn))
	if !f.ok {
		return
	}
	vrt.Assert(len(f.blocks) == len(bl), "a history of successful calls leaves an incomplete file")
	for i := range f.blocks {
		if i < len(bl) {
			vrt.Assert(sameU(f.blocks[i].ids, bl[i].ids) && sameI(f.blocks[i].vals, bl[i].vals), "a history of successful calls leaves other rows")
		}
	}
	openCheckV(fn, bl)
	vrt.Cover("no fault")
}

func openCheckV(fn string, bl []blk) {
	r := open(fn)
	if r == nil {
		return
	}
	expectBlocks(r, bl)
}

// C13V_Writer: a fault at any operation of a block writer's history.
// Bound: 0 to 3 blocks of up to 3 rows with symbolic values, one of them cut at a one-byte
// target; 4 encodings (thorough: 8); one fault at any of the first 400 write, sync,
// seek, create or close operations, after none, half, all or all but one of the bytes of the failing write.
func C13V_Writer() {
	armed(400)
	shapes := [][]int{{}, {1}, {2, 1}}
	encs := []uint32{0, 3, 7}
	if vrt.Thorough() {
		encs = []uint32{0, 1, 2, 3, 4, 5, 6, 7}
		shapes = append(shapes, []int{3, 1, 2})
	}
	enc := encs[vrt.Choose("enc", len(encs))]
	sh := shapes[vrt.Choose("shape", len(shapes))]
	bl := symBlocks(enc, sh, "")
	for _, b := range bl {
		for i := range b.ids {
			b.ids[i] = uint64(7 * i)
		}
	}
	apart := vrt.Choose("apart", 2) == 1
	w, err := newWriter("/a", enc, 0)
	if !step(err, "NewWriter") {
		return
	}
	for _, b := range bl {
		if !step(w.WriteBlock(b.ids, b.vals), "WriteBlock") {
			return
		}
	}
	if apart {
		if !step(w.Finalize(), "Finalize") || !step(w.Close(), "Close") {
			return
		}
	} else if !step(w.FinalizeAndClose(), "FinalizeAndClose") {
		return
	}
	durable("/a", bl)
}

// C13V_Split: a fault while a block is cut at its target size.
// Bound: one submission of 3 rows cut into single rows (one-byte target), 2 encodings.
func C13V_Split() {
	armed(400)
	enc := []uint32{0, 4}[vrt.Choose("enc", 2)]
	rest := symBlocks(enc, []int{3}, "")[0]
	w, err := newWriter("/a", enc, 1)
	if !step(err, "NewWriter") {
		return
	}
	var bl []blk
	for len(rest.ids) > 0 {
		err := w.WriteBlock(rest.ids, rest.vals)
		n := len(rest.ids)
		if full, ok := err.(*col.BlockFullError); ok {
			vrt.Assert(!vos.Faulted, "a failed write is reported as a full block")
			if vos.Faulted {
				return
			}
			n = full.ItemsWritten
		} else if !step(err, "WriteBlock") {
			return
		}
		bl = append(bl, blk{rest.ids[:n], rest.vals[:n]})
		rest = blk{rest.ids[n:], rest.vals[n:]}
	}
	if step(w.FinalizeAndClose(), "FinalizeAndClose") {
		durable("/a", bl)
	}
}

// C13V_Simple: a fault at any operation of a simple writer's history.
// Bound: up to 3 batches of up to 2 symbolic rows, one-byte or default target; one fault as above.
func C13V_Simple() {
	armed(400)
	shapes := [][]int{{}, {2}, {1, 2}}
	sh := shapes[vrt.Choose("shape", len(shapes))]
	enc := []uint32{0, 7}[vrt.Choose("enc", 2)]
	target := []uint32{0, 1}[vrt.Choose("target", 2)]
	n := total(sh)
	ids, vals := make([]uint64, n), symI("val", n)
	for i := range ids {
		ids[i] = uint64(i + 1)
	}
	if valsVar(enc) {
		narrow(vals)
	}
	simpleFaulty(split(ids, vals, sh), enc, target)
}

func simpleFaulty(bl []blk, enc, target uint32) {
	opts := []col.WriterOption{col.WithEncoding(enc)}
	if target > 0 {
		opts = append(opts, col.WithBlockSize(target))
	}
	sw, err := col.NewSimpleWriter("/a", opts...)
	if !step(err, "NewSimpleWriter") {
		return
	}
	for _, b := range bl {
		if !step(sw.Write(b.ids, b.vals), "SimpleWriter.Write") {
			return
		}
	}
	if !step(sw.Close(), "SimpleWriter.Close") {
		return
	}
	vos.WFault, vos.Journing = -1, false
	last, sync := -1, -1
	for i, o := range vos.Journal {
		if o.Kind == 0 || o.Kind == 2 {
			last = i
		} else if o.Kind == 1 {
			sync = i
		}
	}
	vrt.Assert(sync > last, "a history of successful calls ends without a sync after the last write")
	ids, vals, ok := readRows("/a")
	if !ok {
		return
	}
	n := rowsOf(bl)
	vrt.Assert(len(ids) == n && len(vals) == n, "a history of successful calls leaves an incomplete file")
	if len(ids) == n {
		k := 0
		for _, b := range bl {
			vrt.Assert(sameU(ids[k:k+len(b.ids)], b.ids) && sameI(vals[k:k+len(b.ids)], b.vals), "a history of successful calls leaves other rows")
			k += len(b.ids)
		}
	}
	vrt.Cover("no fault")
}

// C13V_Flush: a fault while a batch over the flush threshold is written out.
// Bound: one batch of 1001 filler rows over several blocks, then a close; one
// fault at one of the first 60 operations or at every 53rd one (thorough: every 7th).
func C13V_Flush() {
	armed(3000)
	if vrt.Thorough() {
		vrt.Assume(vrt.Or(vos.WFault < 100, vos.WFault%7 == 0))
	} else {
		vrt.Assume(vrt.Or(vos.WFault < 60, vos.WFault%53 == 0))
	}
	b := ordered(1001, true, 5)
	simpleFaulty([]blk{b}, 0, []uint32{0, 4096}[vrt.Choose("target", 2)])
}
