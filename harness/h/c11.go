package h

import (
	"bytes"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vrt"
)

// prefixSizes returns the sizes of the blocks holding the first 1..n rows when
// written at offset pos, by the format document.
func prefixSizes(enc uint32, b blk, pos int) []int {
	out := make([]int, len(b.ids))
	var pi, pv uint64
	n := bhdrSize + laySize
	for i := range b.ids {
		x, y := b.ids[i], uint64(b.vals[i])
		if idsDelta(enc) {
			x, pi = x-pi, x
		}
		if valsDelta(enc) {
			y, pv = y-pv, y
		}
		if idsVar(enc) {
			n += len(encVar(nil, x))
		} else {
			n += 8
		}
		if valsVar(enc) {
			n += len(encVar(nil, zig(int64(y))))
		} else {
			n += 8
		}
		out[i] = n
		if r := (pos + n) % page; r != 0 {
			out[i] += page - r
		}
	}
	return out
}

// targetCheck submits b once and checks what was stored; it returns the number of rows stored.
func targetCheck(w *col.Writer, fn string, enc, target uint32, b, probe blk) int {
	n := len(b.ids)
	before := readAll(fn)
	size := prefixSizes(enc, b, len(before))
	est, err := w.EstimateBlockSize(b.ids, b.vals)
	noErr(err, "estimating a block fails")
	vrt.Assert(est == uint64(size[n-1]), "the size estimate is not the size of the block")
	// rows that are only ever estimated, in slices kept over the calls
	for _, v := range []int64{-1, 1 << 40} {
		probe.ids[0], probe.vals[0], probe.vals[1] = 77777, v, -v
		one, err := w.EstimateBlockSize(probe.ids, probe.vals)
		noErr(err, "estimating a block fails")
		vrt.Assert(one == uint64(prefixSizes(enc, probe, len(before))[1]), "the size estimate of rows in reused slices is not their size")
	}
	vrt.Assert(bytes.Equal(before, readAll(fn)), "estimating a block changes the file")
	err = w.WriteBlock(b.ids, b.vals)
	m := n
	if err != nil {
		full, ok := err.(*col.BlockFullError)
		vrt.Assert(ok, "writing a block fails")
		if !ok {
			return 0
		}
		m = full.ItemsWritten
		vrt.Assert(m >= 1 && m < n, "a full block reports an impossible number of rows")
		if m < 1 || m >= n {
			return 0
		}
		vrt.Assert(uint64(size[n-1]) > uint64(target), "a block that fits its target is cut")
		vrt.Assert(m == 1 || uint64(size[m-1]) <= uint64(target), "the rows stored exceed the target size")
		vrt.Assert(m+1 == n || uint64(size[m]) > uint64(target), "more rows would fit the target size")
	} else {
		vrt.Assert(n == 1 || uint64(size[n-1]) <= uint64(target), "a block that exceeds its target is stored whole")
	}
	after := readAll(fn)
	vrt.Assert(len(after)-len(before) == size[m-1], "the file does not grow by the size of the rows reported as stored")
	est, err = w.EstimateBlockSize(b.ids, b.vals)
	noErr(err, "estimating a block again fails")
	vrt.Assert(est == uint64(prefixSizes(enc, b, len(after))[n-1]), "the size estimate after a write is not the size of the block there")
	vrt.Observe("stored", uint64(m))
	return m
}

func targetRun(enc, target uint32, first, b blk) {
	fn := path("a")
	w, err := col.NewWriter(fn, col.WithEncoding(enc), col.WithBlockSize(target))
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	var bl []blk
	probe := blk{[]uint64{77777, 77778}, []int64{0, 0}}
	if len(first.ids) > 0 {
		noErr(w.WriteBlock(first.ids, first.vals), "writing a block of one row fails")
		bl = append(bl, first)
	}
	for rounds := 0; len(b.ids) > 0 && rounds < 6; rounds++ {
		m := targetCheck(w, fn, enc, target, b, probe)
		if m == 0 {
			return
		}
		bl = append(bl, blk{b.ids[:m], b.vals[:m]})
		b = blk{b.ids[m:], b.vals[m:]}
	}
	noErr(w.FinalizeAndClose(), "finalizing fails")
	r := open(fn)
	if r == nil {
		return
	}
	expectBlocks(r, bl)
	bm, err := r.GetGlobalIDBitmap()
	noErr(err, "fetching the id bitmap fails")
	if err == nil {
		last := bl[len(bl)-1].ids
		vrt.Assert(bm.Contains(last[len(last)-1]), "the bitmap misses a stored row")
		vrt.Assert(!bm.Contains(77777) && !bm.Contains(77778), "estimating a block changes the id bitmap")
		if len(b.ids) > 0 {
			vrt.Assert(vrt.Or(!bm.Contains(b.ids[0]), b.ids[0] == bl[0].ids[0]), "rows that were not stored appear in the id bitmap")
		}
	}
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("target honoured")
}

// C11_Target: every target size.
// Bound: the target over all of uint32; up to 780 rows (quick), resubmitted up to
// six times; 8 encodings; with and without a block before.
func C11_Target() {
	sizes := []int{1, 3, 251, 600}
	if vrt.Thorough() {
		sizes = []int{1, 2, 3, 100, 247, 248, 251, 252, 253, 420, 510, 780}
	}
	enc := uint32(vrt.Choose("enc", nEnc))
	n := sizes[vrt.Choose("n", len(sizes))]
	var first blk
	if vrt.Choose("first", 2) == 1 {
		first = blk{[]uint64{1 << 50}, []int64{5}}
	}
	targetRun(enc, vrt.U32("target"), first, ordered(n, true, 10))
}

// C11_Rows: symbolic rows.
// Bound: 2 rows (full range in one section at a time; quick: the first row one
// byte), any target, or rows
// whose size decides whether a page is exceeded (about 440 filler rows).
func C11_Rows() {
	enc := uint32(vrt.Choose("enc", nEnc))
	target := vrt.U32("target")
	switch vrt.Choose("kind", 3) {
	case 0:
		b := blk{symU("id", 2), symI("val", 2)}
		if vrt.Choose("narrow", 2) == 0 {
			narrow(b.vals)
		} else {
			narrowU(b.ids)
		}
		if !vrt.Thorough() {
			narrowU(b.ids[:1])
			narrow(b.vals[:1])
		}
		for _, x := range b.ids {
			vrt.Assume(x != 77777 && x != 77778)
		}
		targetRun(enc, target, blk{}, b)
	case 1:
		// ids fixed-width, values one byte each but one
		vrt.Assume(enc == 6)
		n := 437 + vrt.Choose("n", 3)
		b := ordered(n, true, 10)
		for i := range b.vals {
			b.vals[i] = 0
		}
		b.vals[[]int{0, n / 2, n - 1}[vrt.Choose("pos", 3)]] = vrt.I64("val")
		targetRun(enc, target, blk{}, b)
	case 2:
		// both sections variable-length, about two bytes per row
		vrt.Assume(enc == 5 || enc == 7)
		n := 437 + vrt.Choose("n", 3)
		if enc == 7 {
			n = 1973 + vrt.Choose("m", 3)
		}
		if !vrt.Thorough() {
			vrt.Assume(enc == 5)
		}
		b := ordered(n, true, 10)
		for i := range b.vals {
			b.vals[i] = 0
		}
		b.ids[n-1] = vrt.U64("id")
		vrt.Assume(b.ids[n-1] != 77777 && b.ids[n-1] != 77778)
		targetRun(enc, target, blk{}, b)
	}
}

// C11_Cut: cuts at every row.
// Bound: 300 rows at targets of 4096 to 8191 bytes or (thorough) 560 at 8192 to 12287, of 16 and 15 bytes mixed so that the longest prefix
// that fits ends at each of 17 to 33 successive rows.
func C11_Cut() {
	target, n, size := vrt.U32("target"), 300, 4096
	if vrt.Thorough() && vrt.Choose("large", 2) == 1 {
		n, size = 560, 8192
	}
	vrt.Assume(target >= uint32(size) && target < uint32(size+4096))
	long := vrt.Choose("long", size/16/15+1) * 15
	b := ordered(n, true, 10)
	v := int64(0)
	for i := range b.vals {
		if i < long {
			v += 1 << 50
		} else {
			v += 1 << 43
		}
		b.vals[i] = v
	}
	targetRun(6, target, blk{}, b)
}

// C11_Simple: a target set on a simple writer, which cuts batches on its own.
// Bound: every target below 2^20 given at creation, set afterwards or (300 or more
// rows) changed after the first half; up to 600 rows
// (quick) or 1100, in one or two batches, before one close; two encodings (quick)
// or all.
func C11_Simple() {
	sizes := []int{3, 300, 600}
	encs := []uint32{6, 3}
	if vrt.Thorough() {
		sizes = []int{3, 251, 300, 600, 1100}
		encs = []uint32{0, 1, 2, 3, 4, 5, 6, 7}
	}
	enc := encs[vrt.Choose("enc", len(encs))]
	n := sizes[vrt.Choose("n", len(sizes))]
	target := vrt.U32("target")
	vrt.Assume(target < 1<<20)
	if n > 3 {
		vrt.Assume(target >= 4096)
	}
	fn := path("a")
	b := ordered(n, true, 10)
	how := vrt.Choose("how", 3)
	opts := []col.WriterOption{col.WithEncoding(enc)}
	switch how {
	case 0:
		opts = append(opts, col.WithBlockSize(target))
	case 1:
		opts = append(opts, col.WithBlockSize(4096))
	}
	sw, err := col.NewSimpleWriter(fn, opts...)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	h := n
	if vrt.Choose("batches", 2) == 1 {
		h = n / 2
	}
	if how == 1 {
		noErr(sw.SetTargetBlockSize(int(target)), "setting the target fails")
	}
	if h <= 600 || how != 2 {
		noErr(sw.Write(b.ids[:h], b.vals[:h]), "writing rows fails")
	}
	if how == 2 {
		vrt.Assume(h <= 600)
		noErr(sw.SetTargetBlockSize(int(target)), "setting the target fails")
	}
	if h < n {
		noErr(sw.Write(b.ids[h:], b.vals[h:]), "writing rows fails")
	}
	noErr(sw.Close(), "closing the simple writer fails")
	r := open(fn)
	if r == nil {
		return
	}
	at, pos := 0, hdrSize
	nb := int(r.BlockCount())
	for i := 0; i < nb && i <= n; i++ {
		ids, vals, err := r.GetPairs(uint64(i))
		noErr(err, "reading a written block fails")
		m := len(ids)
		vrt.Assert(m >= 1 && at+m <= n && len(vals) == m, "a block holds an impossible number of rows")
		if m < 1 || at+m > n || len(vals) != m {
			return
		}
		for k := range ids {
			vrt.Assert(ids[k] == b.ids[at+k] && vals[k] == b.vals[at+k], "a row read differs from the row written")
		}
		size := prefixSizes(enc, blk{b.ids[at:], b.vals[at:]}, pos)
		vrt.Assert(m == 1 || uint64(size[m-1]) <= uint64(target), "a block of a simple writer exceeds its target size")
		vrt.Assert(at+m == n || uint64(size[m]) > uint64(target), "a simple writer cuts a block that fits its target")
		at, pos = at+m, pos+size[m-1]
	}
	vrt.Assert(at == n, "rows are missing")
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("simple writer cuts by its target")
}
