package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vrt"
)

// lend copies rows into slices with room to spare, for use as call arguments.
func lend(b blk) (l, spare blk) {
	n := len(b.ids)
	spare = blk{make([]uint64, n+2), make([]int64, n+2)}
	copy(spare.ids, b.ids)
	copy(spare.vals, b.vals)
	for i := n; i < n+2; i++ {
		spare.ids[i], spare.vals[i] = 1<<60+uint64(i), -5-int64(i)
	}
	return blk{spare.ids[:n], spare.vals[:n]}, spare
}

// returned asserts that lent slices come back as they were, and then overwrites them.
func returned(spare, b blk, what string) {
	n := len(b.ids)
	vrt.Assert(sameU(spare.ids[:n], b.ids) && sameI(spare.vals[:n], b.vals), what+" changes the caller's rows")
	for i := n; i < n+2; i++ {
		vrt.Assert(spare.ids[i] == 1<<60+uint64(i) && spare.vals[i] == -5-int64(i), what+" writes past the caller's rows")
	}
	for i := range spare.ids {
		spare.ids[i] = vrt.U64("later") + uint64(i)
		spare.vals[i] = vrt.I64("laterv")
	}
}

// C17_Writer: slices handed to the block writer.
// Bound: up to 2 blocks of up to 3 symbolic rows, encodings 0 to 7, one-byte
// or default target; every slice has spare room and is overwritten right after the call.
func C17_Writer() {
	enc := uint32(vrt.Choose("as", nEnc))
	sh := [][]int{{1}, {3}, {2, 1}}[vrt.Choose("shape", 3)]
	target := []uint32{0, 1}[vrt.Choose("target", 2)]
	bl := symBlocks(enc, sh, "")
	fn := path("a")
	w, err := newWriter(fn, enc, target)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	var done []blk
	for _, b := range bl {
		for len(b.ids) > 0 {
			l, sp := lend(b)
			_, err := w.EstimateBlockSize(l.ids, l.vals)
			noErr(err, "estimating a size fails")
			err = w.WriteBlock(l.ids, l.vals)
			n := len(b.ids)
			if full, ok := err.(*col.BlockFullError); ok {
				n = full.ItemsWritten
			} else {
				noErr(err, "writing a block fails")
			}
			returned(sp, b, "writing a block")
			if n < 1 || n > len(b.ids) {
				return
			}
			done = append(done, blk{b.ids[:n], b.vals[:n]})
			b = blk{b.ids[n:], b.vals[n:]}
		}
	}
	noErr(w.FinalizeAndClose(), "finalizing fails")
	openCheck(fn, done)
	r := open(fn)
	if r == nil {
		return
	}
	bm, err := r.GetGlobalIDBitmap()
	noErr(err, "the id bitmap cannot be read")
	if err != nil {
		return
	}
	for _, b := range bl {
		for _, id := range b.ids {
			vrt.Assert(bm.Contains(id), "a row changed after the call changes the id bitmap")
		}
	}
	refAll(bl).match(r.Aggregate(), "statistics after the caller's rows changed")
}

// C17_Simple: slices handed to the simple writer.
// Bound: up to 3 batches of up to 3 rows with symbolic values and ids in any
// order, encodings 0 and 7, one-byte or default target; overwritten right after each call.
func C17_Simple() {
	enc := []uint32{0, 7}[vrt.Choose("as", 2)]
	sh := [][]int{{1}, {3}, {2, 1}, {1, 1, 2}}[vrt.Choose("shape", 4)]
	target := []uint32{0, 1}[vrt.Choose("target", 2)]
	n := total(sh)
	ids, vals := symU("id", n), symI("val", n)
	for i := range ids {
		vrt.Assume(ids[i] < 64)
	}
	if valsVar(enc) {
		narrow(vals)
	}
	bl := split(ids, vals, sh)
	fn := path("a")
	sw := newSimple(fn, enc, target)
	if sw == nil {
		return
	}
	for _, b := range bl {
		l, sp := lend(b)
		noErr(sw.Write(l.ids, l.vals), "a batch is rejected")
		returned(sp, b, "a batch write")
	}
	simpleClose(sw, n)
	gi, gv, ok := readRows(fn)
	if !ok {
		return
	}
	vrt.Assert(len(gi) == n, "another number of rows is stored than was handed in")
	if len(gi) != n {
		return
	}
	// each batch sorted by id: check as a multiset of rows per batch
	k := 0
	for _, b := range bl {
		for j := range b.ids {
			cnt, cntGot := 0, 0
			for m := range b.ids {
				cnt += vrt.B2I(vrt.And(b.ids[m] == b.ids[j], b.vals[m] == b.vals[j]))
				cntGot += vrt.B2I(vrt.And(gi[k+m] == b.ids[j], gv[k+m] == b.vals[j]))
			}
			vrt.Assert(cnt == cntGot, "rows changed by the caller after the call are stored")
		}
		k += len(b.ids)
	}
	vrt.Cover("stored")
}

// C17_Flush: a large batch whose slices are reused at once.
// Bound: 5, 996 and 700 filler rows, the second crossing the flush threshold; default or 4096-byte
// target; one symbolic value.
func C17_Flush() {
	v := vrt.I64("val")
	up := vrt.Choose("up", 2) == 1
	sw := newSimple(path("a"), 0, []uint32{0, 4096}[vrt.Choose("target", 2)])
	if sw == nil {
		return
	}
	var ids []uint64
	var vals []int64
	buf := blk{make([]uint64, 2000), make([]int64, 2000)}
	for i, n := range []int{5, 996, 700} {
		b := ordered(n, up, uint64(10000*i))
		b.vals[n/2] = v
		copy(buf.ids, b.ids)
		copy(buf.vals, b.vals)
		noErr(sw.Write(buf.ids[:n], buf.vals[:n]), "a batch is rejected")
		vrt.Assert(sameU(buf.ids[:n], b.ids) && sameI(buf.vals[:n], b.vals), "a batch write changes the caller's rows")
		for k := range b.ids {
			buf.ids[k], buf.vals[k] = 999999, 77
		}
		for k := range b.ids {
			j := k
			if !up {
				j = n - 1 - k
			}
			ids, vals = append(ids, b.ids[j]), append(vals, b.vals[j])
		}
	}
	simpleClose(sw, len(ids))
	gi, gv, ok := readRows(path("a"))
	if !ok {
		return
	}
	vrt.Assert(len(gi) == len(ids), "another number of rows is stored than was handed in")
	if len(gi) == len(ids) {
		vrt.Assert(sameU(gi, ids) && sameI(gv, vals), "rows changed by the caller after the call are stored")
	}
	vrt.Cover("stored")
}

// C17_Read: slices returned by reads.
// Bound: 2 blocks of 1 and 2 symbolic rows, encodings 0 to 7; all that is
// returned, with its spare room, is overwritten, and everything read again.
func C17_Read() {
	enc := uint32(vrt.Choose("as", nEnc))
	bl := symBlocks(enc, []int{1, 2}, "")
	fn := path("a")
	write(fn, enc, 0, bl)
	r := open(fn)
	if r == nil {
		return
	}
	want := refAll(bl)
	for k := 0; k < 2; k++ {
		for i := range bl {
			ids, vals, err := r.GetPairs(uint64(i))
			noErr(err, "reading a block fails")
			if err != nil {
				return
			}
			vrt.Assert(sameU(ids, bl[i].ids) && sameI(vals, bl[i].vals), "rows changed by a caller are read again")
			for j := range ids {
				ids[j] = vrt.U64("later")
			}
			ids = append(ids, 1, 2)
			vrt.Assert(sameI(vals, bl[i].vals), "the ids and values returned share memory")
			for j := range vals {
				vals[j] = vrt.I64("laterv")
			}
			ids, vals, err = r.GetPairs(uint64(i))
			vrt.Assert(err == nil && sameU(ids, bl[i].ids) && sameI(vals, bl[i].vals), "rows changed by a caller are read again")
			refFiltered(bl, nil, newFilt(nil)).match(r.AggregateWithOptions(col.AggregateOptions{DenyFilter: newFilt(nil).bm}), "filtered aggregate after the caller changed rows")
		}
		for _, b := range r.FilteredBlockIterator(nil, nil) {
			_ = b
		}
		x := r.FilteredBlockIterator(nil, nil)
		for j := range x {
			x[j] = 9
		}
		want.match2(r, 2)
	}
	vrt.Cover("read")
}

// C17_Filters: filters handed to aggregates.
// Bound: 2 blocks of 1 and 2 symbolic rows; an allow and a deny filter of up to 2
// symbolic ids; sequential and parallel; over one or two files.
func C17_Filters() {
	vrt.Preempt(0)
	bl := symBlocks(0, []int{1, 2}, "")
	fn := path("a")
	write(fn, 0, 0, bl)
	r := open(fn)
	if r == nil {
		return
	}
	allow, deny := symFilter("allow", vrt.Choose("na", 4)-1), symFilter("deny", vrt.Choose("nd", 3)-1)
	p := vrt.U64("probe")
	check := func(what string) {
		for _, f := range []*filt{allow, deny} {
			if f == nil {
				continue
			}
			vrt.Assert(f.bm.Contains(p) == in(f.set, p), what+" changes a filter")
			vrt.Assert(f.bm.GetCardinality() <= len(f.set), what+" changes a filter")
		}
	}
	switch vrt.Choose("how", 4) {
	case 0:
		r.AggregateWithOptions(col.AggregateOptions{Filter: allow.bitmap(), DenyFilter: deny.bitmap()})
		check("an aggregate")
	case 1:
		r.AggregateWithOptions(col.AggregateOptions{Filter: allow.bitmap(), DenyFilter: deny.bitmap(), Parallel: 2})
		check("a parallel aggregate")
	case 2:
		r.FilteredBlockIterator(allow.bitmap(), deny.bitmap())
		check("a listing of blocks")
	case 3:
		write(path("b"), 0, 0, []blk{{[]uint64{vrt.U64("other")}, []int64{4}}})
		r2 := open(path("b"))
		if r2 == nil {
			return
		}
		mr := multicol.NewMultiReader([]*col.Reader{r, r2})
		_, err := mr.Aggregate(multicol.AggregateOptions{Filter: allow.bitmap()})
		noErr(err, "a multi-file aggregate fails")
		check("a multi-file aggregate")
	}
	vrt.Cover("aggregated")
}

// C17_Bitmap: id bitmaps fetched from a reader.
// Bound: 2 blocks of 1 and 2 symbolic rows; a bitmap fetched without caching, a
// symbolic id removed from it and another added, everything fetched and aggregated again.
func C17_Bitmap() {
	bl := symBlocks(0, []int{1, 2}, "")
	fn := path("a")
	write(fn, 0, 0, bl)
	r := open(fn)
	if r == nil {
		return
	}
	want := refAll(bl)
	p := vrt.U64("probe")
	has := vrt.Or(p == bl[0].ids[0], vrt.Or(p == bl[1].ids[0], p == bl[1].ids[1]))
	do := vrt.Choose("do", 4)
	for k := 0; k < 3; k++ {
		bm, err := r.GetGlobalIDBitmap()
		noErr(err, "fetching the id bitmap fails")
		if err != nil {
			return
		}
		vrt.Assert(bm.Contains(p) == has, "what a caller did to an id bitmap is fetched again")
		if do>>k == 0 {
			bm.Remove(bl[1].ids[0])
			bm.Set(vrt.U64("other"))
		} else {
			bm.Set(p)
		}
	}
	want.match2(r, 2)
	vrt.Cover("fetched")
}
