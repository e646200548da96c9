package h

import (
	"os"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

func handles(n int, what string) {
	vrt.Assert(vos.Live == n, what)
	vrt.Observe("handles", uint64(vos.Live))
}

// C24V_Open: files that open and files that do not.
// Bound: a file of 0 to 2 blocks, whole, cut short by any of 9 lengths, with one of its last 100 bytes (any)
// or first 64 bytes (any) replaced by any byte, or with one failing or short read at any of the first 60 operations of opening it.
func C24V_Open() {
	vos.Reset()
	var bl []blk
	for i, n := 0, vrt.Choose("blocks", 3); i < n; i++ {
		bl = append(bl, blk{[]uint64{uint64(i) + 4}, []int64{vrt.I64("v", i)}})
	}
	write("/a", uint32(3*vrt.Choose("enc", 2)), 0, bl)
	d := append([]byte(nil), vdata("/a")...)
	vos.Tracking = true
	n := len(d)
	switch vrt.Choose("damage", 4) {
	case 1:
		d = d[:[]int{0, 1, 8, 63, 64, n / 2, n - 25, n - 24, n - 1}[vrt.Choose("cut", 9)]]
	case 2:
		k := vrt.Choose("at", 164)
		if k >= 64 {
			k = n - 164 + k
		}
		d[k] = vrt.U8("byte")
	case 3:
		vos.Counting = true
		vos.PickPartial = func(n int) int { return n / 2 }
		vos.ShortRead = vrt.Choose("short", 2) == 1
		vos.RFault = vrt.Range("rfault", 0, 59)
	}
	noErr(vos.WriteFile("/a", d, 0644), "the model fails")
	r, err := col.NewReader("/a")
	if err != nil {
		handles(0, "a file that fails to open leaves a handle open")
		vrt.Cover("rejected")
		return
	}
	handles(1, "an open reader holds more or fewer than one handle")
	noErr(r.Close(), "closing the reader fails")
	handles(0, "a closed reader leaves a handle open")
	vrt.Assert(r.Close() != nil, "closing a closed reader reports success")
	vrt.Cover("closed")
}

// C24V_Write: writers that succeed and writers that fail.
// Bound: a block writer of 0 to 2 blocks or a simple writer of 2 batches, in 2 encodings or an unknown one; one fault at any of the
// first 400 operations; the writer is finalized and closed, or closed without that; if closing it fails, it is closed again.
func C24V_Write() {
	armed(400)
	vos.Journing, vos.Tracking = false, true
	vos.PickPartial = func(n int) int { return n / 2 }
	enc := uint32(7 * vrt.Choose("enc", 2))
	bl := []blk{{[]uint64{3}, []int64{vrt.I64("v", 0)}}, {[]uint64{4, 5}, []int64{7, vrt.I64("v", 1)}}}
	for _, b := range bl {
		narrow(b.vals)
	}
	kind := vrt.Choose("kind", 3)
	if kind == 2 {
		sw, err := col.NewSimpleWriter("/a", col.WithEncoding(enc))
		if err != nil {
			handles(0, "a simple writer that cannot be created leaves a handle open")
			vrt.Cover("not created")
			return
		}
		for _, b := range bl {
			_ = sw.Write(b.ids, b.vals)
		}
		if sw.Close() != nil && sw.Close() != nil {
			// nothing more can be done with it
			if vos.FaultOp == "close" {
				handles(0, "a simple writer whose close failed leaves a handle open")
			}
			vrt.Cover("not closed")
			return
		}
		handles(0, "a closed simple writer leaves a handle open")
		vrt.Cover("closed")
		return
	}
	if vrt.Choose("unknown encoding", 2) == 1 {
		enc = 99
	}
	w, err := col.NewWriter("/a", col.WithEncoding(enc))
	if err != nil {
		vrt.Assert(w == nil, "NewWriter fails and returns a writer")
		handles(0, "a writer that cannot be created leaves a handle open")
		vrt.Cover("not created")
		return
	}
	handles(1, "an open writer holds more or fewer than one handle")
	for _, b := range bl[:vrt.Choose("blocks", 3)] {
		_ = w.WriteBlock(b.ids, b.vals)
	}
	if kind == 0 {
		if w.FinalizeAndClose() != nil {
			_ = w.Close()
		}
	} else {
		_ = w.Close()
	}
	handles(0, "a closed writer leaves a handle open")
	vrt.Assert(w.Close() != nil, "closing a closed writer reports success")
	vrt.Cover("closed")
}

// C24V_Multi: a multi-reader closes all its readers.
// Bound: 0 to 4 files; one of the closes fails, or one of the readers was closed before, or neither.
func C24V_Multi() {
	vos.Reset()
	vos.Tracking = true
	n := vrt.Choose("files", 5)
	var rs []*col.Reader
	for i := 0; i < n; i++ {
		fn := "/" + string(rune('a'+i))
		write(fn, 0, 0, []blk{{[]uint64{uint64(i)}, []int64{vrt.I64("v", i)}}})
		r := open(fn)
		if r == nil {
			return
		}
		rs = append(rs, r)
	}
	handles(n, "open readers hold more or fewer handles than there are readers")
	mr := multicol.NewMultiReader(rs)
	if vrt.Choose("aggregate", 2) == 1 {
		_, err := mr.Aggregate(multicol.AggregateOptions{})
		noErr(err, "a multi-file aggregate fails")
		handles(n, "a multi-file aggregate opens or closes a handle")
	}
	bad := false
	if n > 0 {
		k := vrt.Choose("which", n)
		switch vrt.Choose("problem", 3) {
		case 1:
			bad = true
			vos.CloseFails = k
		case 2:
			bad = true
			noErr(rs[k].Close(), "closing a reader fails")
		}
	}
	err := mr.Close()
	vrt.Assert(bad == (err != nil), "closing a multi-reader hides a failed close or fails without one")
	handles(0, "a closed multi-reader leaves a handle open")
	vrt.Cover("closed")
}

// C24V_Queries: queries open nothing.
// Bound: 3 blocks with one symbolic value each; every sequence of 2 of 6 kinds of query, sequential and parallel, caching off or
// on, the first 40 reads of which one may fail.
func C24V_Queries() {
	vos.Reset()
	var bl []blk
	for i := 0; i < 3; i++ {
		bl = append(bl, blk{[]uint64{uint64(i), 9}, []int64{vrt.I64("v", i), 5}})
	}
	write("/a", 0, 0, bl)
	vos.Tracking = true
	r := open("/a")
	if r == nil {
		return
	}
	vrt.Preempt(0)
	if vrt.Choose("cache", 2) == 1 {
		r.EnableGlobalIDBitmapCaching()
	}
	if vrt.Choose("fault", 2) == 1 {
		vos.Counting = true
		vos.RFault = vrt.Range("rfault", 0, 39)
	}
	allow := newFilt([]uint64{9, 1})
	for i := 0; i < 2; i++ {
		switch vrt.Choose([]string{"a", "b"}[i], 6) {
		case 0:
			_, _, _ = r.GetPairs(uint64(i))
		case 1:
			_, _ = r.GetGlobalIDBitmap()
		case 2:
			r.Aggregate()
		case 3:
			r.AggregateWithOptions(col.AggregateOptions{Filter: allow.bm, SkipPreCalculated: true})
		case 4:
			r.AggregateWithOptions(col.AggregateOptions{DenyFilter: allow.bm, Parallel: 2})
		case 5:
			_, _, _ = r.GetPairs(7)
		}
		handles(1, "a query opens or closes a handle")
	}
	vos.RFault = -1
	noErr(r.Close(), "closing the reader fails")
	handles(0, "a closed reader leaves a handle open")
	vrt.Cover("closed")
}

// C24_Goroutines: what a parallel aggregate starts has ended when it returns.
// Bound: 0 to 3 blocks (symbolic values and one symbolic id), of which none, the second half or all are unreadable; parallelism 0 to 4 (thorough: also 9),
// unlimited with 1 or 3 processors; statistics or rows, with or without an allow or deny filter; up to 2 deviations from run-to-completion.
func C24_Goroutines() {
	n := vrt.Choose("blocks", 4)
	var bl []blk
	for i := 0; i < n; i++ {
		bl = append(bl, blk{[]uint64{uint64(i), 9}, []int64{vrt.I64("v", i), 5}})
	}
	if n > 0 {
		bl[n-1].ids[0] = vrt.U64("x")
	}
	fn := path("a")
	write(fn, 0, 0, bl)
	if n > 0 {
		f, err := os.OpenFile(fn, os.O_RDWR, 0)
		noErr(err, "reopening the file fails")
		if err != nil {
			return
		}
		for i := vrt.Choose("unreadable from", 3) * n / 2; i < n; i++ {
			at := int64(4096 * i)
			if i == 0 {
				at = 64
			}
			_, err = f.WriteAt([]byte{255, 255, 255, 255, 255, 255, 255, 255}, at+64)
			noErr(err, "changing the file fails")
		}
		noErr(f.Close(), "closing the file fails")
	}
	r := open(fn)
	if r == nil {
		return
	}
	o := col.AggregateOptions{Parallel: vrt.Choose("par", 6+vrt.B2I(vrt.Thorough())) - 1}
	if o.Parallel < 0 {
		vrt.SetProcs(1 + 2*vrt.Choose("procs", 2))
	}
	if o.Parallel == 5 {
		o.Parallel = 9
	}
	allow := newFilt([]uint64{9, 0})
	switch vrt.Choose("filter", 4) {
	case 1:
		o.SkipPreCalculated = true
	case 2:
		o.Filter = allow.bm
	case 3:
		o.DenyFilter = allow.bm
	}
	vrt.Preempt(2)
	before := vrt.Goroutines()
	a := r.AggregateWithOptions(o)
	vrt.Observe("count", uint64(a.Count))
	vrt.Assert(vrt.Settled(before), "an aggregate leaves a goroutine behind")
	mr := multicol.NewMultiReader([]*col.Reader{r, r})
	mr.Aggregate(multicol.AggregateOptions{SkipPreCalculated: o.SkipPreCalculated})
	vrt.Assert(vrt.Settled(before), "a multi-file aggregate leaves a goroutine behind")
	vrt.Cover("settled")
}

// C24_Closed: calls on closed readers and writers fail and do nothing.
// Bound: 2 blocks of symbolic values; reads, bitmap fetches, aggregates, block writes, finalization and closing of an object closed
// before; caching off or on; the file read by another reader afterwards.
func C24_Closed() {
	bl := []blk{{[]uint64{3, 8}, []int64{vrt.I64("v", 0), vrt.I64("v", 1)}}, {[]uint64{vrt.U64("x")}, []int64{vrt.I64("v", 2)}}}
	fn := path("a")
	w, err := newWriter(fn, 0, 0)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	for _, b := range bl {
		noErr(w.WriteBlock(b.ids, b.vals), "writing a block that fits fails")
	}
	noErr(w.FinalizeAndClose(), "finalizing fails")
	for i := 0; i < 2; i++ {
		switch vrt.Choose([]string{"first", "second"}[i], 4) {
		case 0:
			vrt.Assert(w.WriteBlock([]uint64{1}, []int64{vrt.I64("late")}) != nil, "writing a block to a closed writer reports success")
		case 1:
			vrt.Assert(w.Finalize() != nil, "finalizing a closed writer reports success")
		case 2:
			vrt.Assert(w.FinalizeAndClose() != nil, "finalizing a closed writer reports success")
		case 3:
			vrt.Assert(w.Close() != nil, "closing a closed writer reports success")
		}
	}
	r := open(fn)
	if r == nil {
		return
	}
	expectBlocks(r, bl)
	cache := vrt.Choose("cache", 2) == 1
	if cache {
		r.EnableGlobalIDBitmapCaching()
	}
	noErr(r.Close(), "closing the reader fails")
	ids, vals, err := r.GetPairs(uint64(vrt.Choose("block", 2)))
	vrt.Assert(err != nil && len(ids) == 0 && len(vals) == 0, "reading a block of a closed reader reports success")
	_, err = r.GetGlobalIDBitmap()
	vrt.Assert(err != nil, "fetching the bitmap of a closed reader reports success")
	vrt.Assert(r.Close() != nil, "closing a closed reader reports success")
	_, err = multicol.NewMultiReader([]*col.Reader{r, r}).Aggregate(multicol.AggregateOptions{})
	vrt.Assert(err != nil, "a multi-file aggregate over a closed reader reports success")
	openCheck(fn, bl)
	vrt.Cover("closed calls rejected")
}
