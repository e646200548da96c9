package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

// view asserts that r shows exactly bl.
func view(r *col.Reader, bl []blk, who string) {
	vrt.Assert(r.BlockCount() == uint64(len(bl)), who+" shows another number of blocks")
	if r.BlockCount() != uint64(len(bl)) {
		return
	}
	n := 0
	bm, err := r.GetGlobalIDBitmap()
	noErr(err, who+" cannot read its id bitmap")
	for i, b := range bl {
		ids, vals, err := r.GetPairs(uint64(i))
		vrt.Assert(err == nil, who+" cannot read a block")
		if err != nil {
			return
		}
		vrt.Assert(vrt.And(sameU(ids, b.ids), sameI(vals, b.vals)), who+" shows other rows")
		for _, id := range b.ids {
			n++
			if bm != nil {
				vrt.Assert(bm.Contains(id), who+" lacks an id in its bitmap")
			}
		}
	}
	if bm != nil {
		vrt.Assert(bm.GetCardinality() <= n, who+" has foreign ids in its bitmap")
	}
	refAll(bl).match(r.Aggregate(), "aggregate of "+who)
	if len(bl) > 0 {
		f := newFilt([]uint64{bl[0].ids[0], bl[len(bl)-1].ids[0]})
		refFiltered(bl, f, nil).match(filtered(r, f, nil, false, 0), "filtered aggregate of "+who)
	}
}

// C27_Stages: blocks written and the file finalized again and again.
// Bound: 2 (thorough: 3) stages of 0 to 2 blocks of one symbolic row, or one of two, 2 encodings (thorough: 5),
// with a reader opened after every stage and kept, with or without caching; a reader that is
// opened while blocks are pending is refused or shows the stage before.
func C27_Stages() {
	encs := []uint32{0, 7}
	stages := 2
	if vrt.Thorough() {
		encs = []uint32{0, 3, 4, 6, 7}
		stages = 3
	}
	enc := encs[vrt.Choose("enc", len(encs))]
	cache := vrt.Choose("cache", 2) == 1
	fn := path("a")
	w, err := newWriter(fn, enc, 0)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	var bl []blk
	var kept []*col.Reader
	var had []int
	for s := 0; s < stages; s++ {
		tag := []string{"a", "b", "c"}[s]
		shape := [][]int{{1}, {1, 1}, {}, {2}}[vrt.Choose("shape"+tag, 4)]
		if enc == 7 && !vrt.Thorough() && len(shape) > 0 {
			shape = []int{1}
		}
		for _, b := range symBlocks(enc, shape, tag) {
			noErr(w.WriteBlock(b.ids, b.vals), "writing a block that fits fails")
			bl = append(bl, b)
		}
		if len(shape) > 0 && s > 0 {
			if r, err := col.NewReader(fn); err == nil {
				view(r, bl[:had[s-1]], "a reader opened before finalizing")
				noErr(r.Close(), "closing the reader fails")
			}
		}
		noErr(w.Finalize(), "finalizing fails")
		r := open(fn)
		if r == nil {
			return
		}
		if cache {
			r.EnableGlobalIDBitmapCaching()
		}
		kept, had = append(kept, r), append(had, len(bl))
		for i, r := range kept {
			who := "a reader of a former stage"
			if i == s {
				who = "a reader of the last stage"
			}
			view(r, bl[:had[i]], who)
		}
	}
	noErr(w.Close(), "closing the writer fails")
	for i, r := range kept {
		view(r, bl[:had[i]], "a reader after the writer was closed")
		noErr(r.Close(), "closing the reader fails")
	}
	vrt.Cover("staged")
}

// C27_Many: many stages, large stages.
// Bound: 6 stages of 1 to 3 filler blocks of up to 600 rows, in 3 encodings; one symbolic value.
func C27_Many() {
	enc := []uint32{0, 5, 7}[vrt.Choose("enc", 3)]
	fn := path("a")
	w, err := newWriter(fn, enc, 0)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	var bl []blk
	first := (*col.Reader)(nil)
	n := 0
	for s := 0; s < 6; s++ {
		for k := 0; k <= s%3; k++ {
			b := filler(1+(s*97+k*211)%600, 0, uint64(s*5+k))
			if s == 2 && k == 0 {
				b.vals[0] = vrt.I64("v")
				narrow(b.vals[:1])
			}
			noErr(w.WriteBlock(b.ids, b.vals), "writing a block that fits fails")
			bl = append(bl, b)
		}
		noErr(w.Finalize(), "finalizing fails")
		r := open(fn)
		if r == nil {
			return
		}
		if first == nil {
			first, n = r, len(bl)
			continue
		}
		view(r, bl, "a reader of the last stage")
		noErr(r.Close(), "closing the reader fails")
	}
	view(first, bl[:n], "a reader of a former stage")
	noErr(first.Close(), "closing the reader fails")
	noErr(w.Close(), "closing the writer fails")
	vrt.Cover("staged")
}

// C27V_Fault: a stage that fails leaves what was finalized before to readers already open,
// and the next one that succeeds is complete.
// Bound: one block, finalized; one more block and another finalization with a
// fault at any of the first 120 operations, or only the block; a last finalization without faults,
// with or without closing.
func C27V_Fault() {
	vos.Reset()
	bl := symBlocks(0, []int{1, 2}, "")
	w, err := newWriter("/a", 0, 0)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	noErr(w.WriteBlock(bl[0].ids, bl[0].vals), "writing a block that fits fails")
	noErr(w.Finalize(), "finalizing fails")
	r := open("/a")
	if r == nil {
		return
	}
	vos.PickPartial = func(n int) int { return []int{0, n / 2, n}[vrt.Choose("partial", 3)] }
	vos.WFault = vos.WOps + vrt.Range("fault", 0, 119)
	done := bl[:1]
	if w.WriteBlock(bl[1].ids, bl[1].vals) == nil {
		done = bl
	}
	if vrt.Choose("between", 2) == 1 {
		err = w.Finalize()
		vrt.Assert(err != nil || !vos.Faulted || len(done) == 1, "a fault is not reported")
	}
	vos.WFault = -1
	view(r, bl[:1], "a reader of a former stage")
	if vrt.Choose("last", 2) == 1 {
		noErr(w.Finalize(), "finalizing again fails")
	} else {
		noErr(w.FinalizeAndClose(), "finalizing again fails")
	}
	n := open("/a")
	if n == nil {
		return
	}
	view(n, done, "a reader of the last stage")
	view(r, bl[:1], "a reader of a former stage")
	vrt.Cover("recovered")
}
