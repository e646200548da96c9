package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

// holds asserts that the file has exactly the given blocks and their ids.
func holds(fn string, bl []blk, ids []uint64) {
	vos.WFault, vos.Journing = -1, false
	r := open(fn)
	if r == nil {
		return
	}
	vrt.Assert(r.BlockCount() == uint64(len(bl)), "after a failed call the finalized file has another number of blocks than were written successfully")
	if r.BlockCount() != uint64(len(bl)) {
		return
	}
	a := refAll(bl)
	agg := r.AggregateWithOptions(col.AggregateOptions{})
	vrt.Assert(agg.Count == a.n && agg.Sum == a.sum, "after a failed call the aggregates of the finalized file are not those of the blocks written successfully")
	for i := range bl {
		x, v, err := r.GetPairs(uint64(i))
		noErr(err, "after a failed call a block of the finalized file cannot be read")
		vrt.Assert(sameU(x, bl[i].ids) && sameI(v, bl[i].vals), "after a failed call a block of the finalized file differs from the one written")
	}
	bm, err := r.GetGlobalIDBitmap()
	noErr(err, "after a failed call the id bitmap of the finalized file cannot be read")
	if err != nil {
		return
	}
	var stored []uint64
	for _, b := range bl {
		stored = append(stored, b.ids...)
	}
	for _, id := range ids {
		vrt.Assert(bm.Contains(id) == in(stored, id), "after a failed call the id bitmap of the finalized file is not the ids of the blocks written successfully")
	}
	vrt.Cover("finalized after a failure")
}

// C22V_Writer: a block writer that is used on after a fault.
// Bound: 2 or 3 blocks of one or two symbolic rows with different ids; one fault
// at any operation, after none, half, all or all but one of the bytes of the failing
// write; the failed block is dropped or written again; a failed finalization
// is repeated, or another block is written before it is.
func C22V_Writer() {
	armed(300)
	encs := []uint32{0, 7}
	if vrt.Thorough() {
		encs = []uint32{0, 1, 2, 3, 4, 5, 6, 7}
	}
	goesOn(encs[vrt.Choose("enc", len(encs))])
}

// C22V_Streak: as above, but several operations in a row fail, and with them what
// the writer does about the first failure.
// Bound: as above, with two or three (thorough: or five or nine) operations in a row
// failing, and one encoding.
func C22V_Streak() {
	armed(300)
	times := []int{2, 3}
	if vrt.Thorough() {
		times = []int{2, 3, 5, 9}
	}
	vos.Times = times[vrt.Choose("times", len(times))]
	goesOn(0)
}

func goesOn(enc uint32) {
	shapes := [][]int{{1, 2}, {2, 1, 1}}
	sh := shapes[vrt.Choose("shape", vrt.B2I(vrt.Thorough())+1)]
	n := total(sh)
	ids, vals := make([]uint64, n), symI("val", n)
	for i := range ids {
		ids[i] = uint64(3*i + 5)
	}
	if valsVar(enc) {
		narrow(vals)
	}
	again := vrt.Choose("again", 2) == 1
	later := vrt.Choose("later", 2) == 1
	bl := split(ids, vals, sh)
	extra := blk{[]uint64{1000}, []int64{-77}}
	w, err := newWriter("/a", enc, 0)
	if err != nil {
		return
	}
	var done []blk
	for _, b := range bl {
		err := w.WriteBlock(b.ids, b.vals)
		if err != nil && again {
			err = w.WriteBlock(b.ids, b.vals)
		}
		if err == nil {
			done = append(done, b)
		}
	}
	err = w.Finalize()
	if err != nil {
		if !vos.Faulted {
			// An earlier failure made the writer unusable, and it says so.
			noErr(err, "finalizing fails without a fault")
			return
		}
		vrt.Cover("finalization failed")
		if later && w.WriteBlock(extra.ids, extra.vals) == nil {
			done = append(done, extra)
		}
		if err = w.Finalize(); err != nil {
			vrt.Cover("writer unusable")
			return
		}
	}
	if w.Close() != nil {
		return
	}
	holds("/a", done, append([]uint64{1000, 0, 999}, ids...))
}

// C22V_Simple: a simple writer whose close is repeated after a fault.
// Bound: up to 3 batches of up to 2 symbolic rows, one-byte or default target; one
// fault as above; a failed close is repeated, after another batch or at once.
func C22V_Simple() {
	armed(300)
	shapes := [][]int{{2}, {1, 2}}
	sh := shapes[vrt.Choose("shape", len(shapes))]
	enc := []uint32{0, 7}[vrt.Choose("enc", 2)]
	target := []uint32{0, 1}[vrt.Choose("target", 2)]
	later := vrt.Choose("later", 2) == 1
	n := total(sh)
	ids, vals := make([]uint64, n+1), symI("val", n+1)
	for i := range ids {
		ids[i] = uint64(3*i + 1)
	}
	if valsVar(enc) {
		narrow(vals)
	}
	opts := []col.WriterOption{col.WithEncoding(enc)}
	if target > 0 {
		opts = append(opts, col.WithBlockSize(target))
	}
	sw, err := col.NewSimpleWriter("/a", opts...)
	if err != nil {
		return
	}
	for _, b := range split(ids[:n], vals[:n], sh) {
		noErr(sw.Write(b.ids, b.vals), "a small batch is rejected")
	}
	if sw.Close() == nil {
		rowsAre(sw, ids[:n], vals[:n])
		return
	}
	vrt.Cover("close failed")
	if later {
		noErr(sw.Write(ids[n:], vals[n:]), "a small batch is rejected after a failed close")
		n++
	}
	if sw.Close() != nil {
		vrt.Cover("writer unusable")
		return
	}
	rowsAre(sw, ids[:n], vals[:n])
	vrt.Cover("closed after a failure")
}

func rowsAre(sw *col.SimpleWriter, ids []uint64, vals []int64) {
	vos.WFault, vos.Journing = -1, false
	vrt.Assert(sw.TotalItems() == uint64(len(ids)), "after a failed close the item total differs from the number of rows")
	gotI, gotV, ok := readRows("/a")
	if !ok {
		return
	}
	vrt.Assert(len(gotI) == len(ids), "after a failed close the finalized file has other rows than were handed in")
	if len(gotI) == len(ids) {
		vrt.Assert(sameU(gotI, ids) && sameI(gotV, vals), "after a failed close the finalized file has other rows than were handed in")
	}
	r := open("/a")
	if r == nil {
		return
	}
	bm, err := r.GetGlobalIDBitmap()
	noErr(err, "the id bitmap cannot be read")
	if err == nil {
		for _, id := range ids {
			vrt.Assert(bm.Contains(id), "after a failed close the id bitmap lacks a row")
		}
	}
}

// C22V_Flush: a simple writer whose flush fails is closed.
// Bound: two batches, one of 3 and one of 998 filler rows, the second reaching the flush threshold;
// one fault at one of the first 60 operations or at every 53rd one (thorough: every 7th).
func C22V_Flush() {
	armed(3000)
	if vrt.Thorough() {
		vrt.Assume(vrt.Or(vos.WFault < 100, vos.WFault%7 == 0))
	} else {
		vrt.Assume(vrt.Or(vos.WFault < 60, vos.WFault%53 == 0))
	}
	b := ordered(1001, true, 5)
	sw, err := col.NewSimpleWriter("/a", col.WithBlockSize([]uint32{16384, 4096}[vrt.Choose("target", 2)]))
	if err != nil {
		return
	}
	noErr(sw.Write(b.ids[:3], b.vals[:3]), "a small batch is rejected")
	if sw.Write(b.ids[3:], b.vals[3:]) == nil {
		return
	}
	vrt.Cover("flush failed")
	if sw.Close() != nil {
		vrt.Cover("writer unusable")
		return
	}
	vos.WFault, vos.Journing = -1, false
	ids, vals, ok := readRows("/a")
	if !ok {
		return
	}
	// the accepted batch is stored; of the rejected one each row at most once
	vrt.Assert(len(ids) >= 3 && len(ids) <= 1001 && uint64(len(ids)) == sw.TotalItems(), "after a failed flush the finalized file has other rows than were handed in")
	for i := range ids {
		if i < 1001 {
			vrt.Assert(ids[i] == b.ids[i] && vals[i] == b.vals[i], "after a failed flush the finalized file has other rows than were handed in")
		}
	}
	vrt.Cover("closed after a failure")
}
