package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vrt"
)

// bitmapCheck compares the bitmap with the stored rows at a symbolic probe.
func bitmapCheck(r *col.Reader, bl []blk, what string) {
	bm, err := r.GetGlobalIDBitmap()
	noErr(err, what+": fetching the id bitmap fails")
	if err != nil {
		return
	}
	x := vrt.U64("probe")
	want := false
	n := 0
	for _, b := range bl {
		want = vrt.Or(want, in(b.ids, x))
		n += len(b.ids)
	}
	got := bm.Contains(x)
	vrt.Assert(imp(got, want), what+": the bitmap holds an id that is not stored")
	vrt.Assert(imp(want, got), what+": the bitmap misses a stored id")
	vrt.Assert(bm.GetCardinality() <= n, what+": the bitmap holds more ids than rows")
	if n == 0 {
		vrt.Assert(bm.IsEmpty(), what+": the bitmap of a file without rows is not empty")
	}
	for _, b := range bl {
		for _, id := range b.ids {
			vrt.Assert(bm.Contains(id), what+": the bitmap misses a row's id")
		}
	}
	vrt.Observe("has", uint64(vrt.B2I(got)))
}

// fetches runs a caching history: every step fetches and checks.
func fetches(fn string, bl []blk) {
	r := open(fn)
	if r == nil {
		return
	}
	switch vrt.Choose("cache", 4) {
	case 0:
		bitmapCheck(r, bl, "without cache")
		bitmapCheck(r, bl, "fetched again")
	case 1:
		r.EnableGlobalIDBitmapCaching()
		bitmapCheck(r, bl, "with cache")
		bitmapCheck(r, bl, "from cache")
	case 2:
		bitmapCheck(r, bl, "without cache")
		r.EnableGlobalIDBitmapCaching()
		bitmapCheck(r, bl, "with cache")
		r.DisableGlobalIDBitmapCaching()
		bitmapCheck(r, bl, "cache dropped")
	case 3:
		r.EnableGlobalIDBitmapCaching()
		r.DisableGlobalIDBitmapCaching()
		bitmapCheck(r, bl, "cache dropped")
		r.EnableGlobalIDBitmapCaching()
		bitmapCheck(r, bl, "with cache again")
	}
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("bitmap read")
}

// C06_Shapes: any ids, up to three blocks.
// Bound: 8 encodings; up to 4 rows over the full range (one byte in
// variable-length sections); 4 caching histories.
func C06_Shapes() {
	shapes := [][]int{{}, {1}, {3}, {1, 1}, {2, 1, 1}}
	enc := uint32(vrt.Choose("enc", nEnc))
	bl := symBlocks(enc, shapes[vrt.Choose("shape", len(shapes))], "")
	write(path("a"), enc, 0, bl)
	fetches(path("a"), bl)
}

// C06_Split: blocks cut at the target size, rows beyond the cut never stored or
// stored later.
// Bound: 300 filler rows with symbolic ids at the start, at the cut and at the
// end; one-page blocks.
func C06_Split() {
	b := filler(300, 1+vrt.Choose("kind", 2), 3)
	w, err := col.NewWriter(path("a"), col.WithEncoding(uint32(vrt.Choose("enc", 4))), col.WithBlockSize(4096))
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	// 4096 bytes from offset 64: 80 bytes of header, 16 per row
	cut := (4096 - 64 - 80) / 16
	b.ids[0] = vrt.U64("id", 0)
	b.ids[cut-1] = vrt.U64("id", 1)
	b.ids[cut] = vrt.U64("id", 2)
	b.ids[299] = vrt.U64("id", 3)
	err = w.WriteBlock(b.ids, b.vals)
	full, ok := err.(*col.BlockFullError)
	vrt.Assert(ok, "a block over the target size is not cut")
	if !ok {
		return
	}
	k := full.ItemsWritten
	bl := []blk{{b.ids[:k], b.vals[:k]}}
	if vrt.Choose("rest", 2) == 1 {
		rest := blk{b.ids[k:], b.vals[k:]}
		noErr(w.WriteBlock(rest.ids, rest.vals), "writing a block that fits fails")
		bl = append(bl, rest)
	}
	noErr(w.FinalizeAndClose(), "finalizing fails")
	fetches(path("a"), bl)
}

// C06_Used: bitmaps fetched before and after they were used, by queries over one file and over both.
// Bound: 2 files of 1 symbolic row (thorough: the second has 2 blocks), caching on for each or off; 5 kinds of use, twice.
func C06_Used() {
	second := []int{1}
	if vrt.Thorough() {
		second = []int{1, 1}
	}
	bl := [][]blk{symBlocks(0, []int{1}, "a"), symBlocks(0, second, "b")}
	cache := vrt.Choose("cache", 4)
	var rs []*col.Reader
	for i, n := range []string{"a", "b"} {
		write(path(n), 0, 0, bl[i])
		r := open(path(n))
		if r == nil {
			return
		}
		if cache>>i&1 == 1 {
			r.EnableGlobalIDBitmapCaching()
		}
		rs = append(rs, r)
	}
	mr := multicol.NewMultiReader(rs)
	allow := symFilter("allow", 1)
	for k := 0; k < 2; k++ {
		switch vrt.Choose([]string{"use", "then"}[k], 5) {
		case 0:
			_, err := mr.Aggregate(multicol.AggregateOptions{})
			noErr(err, "aggregating two files fails")
		case 1:
			_, err := mr.Aggregate(multicol.AggregateOptions{Filter: allow.bm})
			noErr(err, "aggregating two files with a filter fails")
		case 2:
			bm, err := rs[0].GetGlobalIDBitmap()
			noErr(err, "fetching the id bitmap fails")
			rs[1].AggregateWithOptions(col.AggregateOptions{DenyFilter: bm, SkipPreCalculated: true})
		case 3:
			bm, err := rs[0].GetGlobalIDBitmap()
			noErr(err, "fetching the id bitmap fails")
			rs[1].AggregateWithOptions(col.AggregateOptions{Filter: bm, DenyFilter: allow.bm})
		case 4:
			bm, err := rs[1].GetGlobalIDBitmap()
			noErr(err, "fetching the id bitmap fails")
			rs[0].FilteredBlockIterator(bm, allow.bm)
			rs[0].AggregateWithOptions(col.AggregateOptions{Filter: bm, Parallel: 2})
		}
		bitmapCheck(rs[0], bl[0], "used")
		bitmapCheck(rs[1], bl[1], "used")
	}
	vrt.Cover("used")
}

// C06_Many: files of many blocks.
// Bound: 74 or 260 (thorough: 1200) blocks of one or two rows, one symbolic id; 4 caching histories.
func C06_Many() {
	bl := manyBlocks(true)
	write(path("a"), 0, 0, bl)
	fetches(path("a"), bl)
}

// C06_Long: bitmaps of more than 64 KiB.
// Bound: 7000 (thorough: also 70000) ids in one block or several, with a last one that is any id (symbolic); fetched twice.
func C06_Long() {
	n := 7000
	if vrt.Thorough() && vrt.Choose("longer", 2) == 1 {
		n = 70000
	}
	b := ordered(n, true, 10)
	b.ids[n-1] = vrt.U64("id")
	size := []int{n, 1000}[vrt.Choose("blocks", 2)]
	var bl []blk
	for i := 0; i < n; i += size {
		bl = append(bl, blk{b.ids[i : i+size], b.vals[i : i+size]})
	}
	write(path("a"), 0, 1<<30, bl)
	r := open(path("a"))
	if r == nil {
		return
	}
	for k := 0; k < 2; k++ {
		bm, err := r.GetGlobalIDBitmap()
		noErr(err, "fetching the id bitmap fails")
		if err != nil {
			return
		}
		for _, id := range b.ids {
			vrt.Assert(bm.Contains(id), "the bitmap misses a row's id")
		}
		for _, x := range []uint64{0, b.ids[0] - 1, b.ids[n/2] + 1, b.ids[n-2] + 1, 1 << 63} {
			vrt.Assert(vrt.Or(!bm.Contains(x), x == b.ids[n-1]), "the bitmap holds an id that is not stored")
		}
		vrt.Assert(bm.GetCardinality() <= n, "the bitmap holds more ids than rows")
	}
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("bitmap read")
}
