package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

// vdata is the content of a model file.
func vdata(fn string) []byte {
	d, err := vos.ReadFile(fn)
	noErr(err, "the file cannot be read back")
	return d
}

// armed sets up one fault at a symbolic point, or none.
func armed(max int) {
	vos.Reset()
	vos.Journing = true
	drawn, part := false, 0
	vos.PickPartial = func(n int) int {
		if n == 0 {
			return 0
		}
		if !drawn {
			drawn, part = true, vrt.Choose("partial", 4)
		}
		return []int{0, n, n - 1, n / 2}[part]
	}
	vos.WFault = vrt.Range("fault", -1, max)
}

// completeOrRejected asserts that a file that opens holds the blocks bl.
func completeOrRejected(fn string, bl []blk) {
	r, err := col.NewReader(fn)
	if err != nil {
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("opened")
	complete(r, bl)
}

// complete asserts that a reader shows exactly the blocks bl.
func complete(r *col.Reader, bl []blk) {
	vrt.Assert(r.BlockCount() == uint64(len(bl)), "a partially written file opens with another number of blocks")
	if r.BlockCount() != uint64(len(bl)) {
		return
	}
	for i := range bl {
		ids, vals, err := r.GetPairs(uint64(i))
		vrt.Assert(err == nil, "a partially written file opens but a block cannot be read")
		if err != nil {
			return
		}
		vrt.Assert(sameU(ids, bl[i].ids) && sameI(vals, bl[i].vals), "a partially written file opens with other rows")
	}
	bm, err := r.GetGlobalIDBitmap()
	vrt.Assert(err == nil, "a partially written file opens but its id bitmap cannot be read")
	if err != nil {
		return
	}
	refAll(bl).match(r.Aggregate(), "aggregate of a partially written file")
	n := 0
	for _, b := range bl {
		for _, id := range b.ids {
			n++
			vrt.Assert(bm.Contains(id), "a partially written file opens with an incomplete id bitmap")
		}
	}
	vrt.Assert(bm.GetCardinality() <= n, "a partially written file opens with foreign ids in its bitmap")
}

// plain confines rows to numbers that cannot imitate the trailer.
func plain(bl []blk) {
	for _, b := range bl {
		for i := range b.ids {
			vrt.Assume(b.ids[i] < 1000)
			vrt.Assume(b.vals[i] >= -1000 && b.vals[i] < 1000)
		}
	}
}

// older leaves a finalized file under the name, unless none is wanted.
func older(fn string, n int) []byte {
	if n == 0 {
		return nil
	}
	var bl []blk
	for i := 0; i < n; i++ {
		bl = append(bl, filler(2, 0, uint64(i)))
	}
	write(fn, 0, 0, bl)
	return append([]byte(nil), vdata(fn)...)
}

// apply is the image after a journalled write or truncation.
func apply(img []byte, o vos.JOp) []byte {
	grow := func(n int64) {
		if int64(len(img)) < n {
			img = append(img, make([]byte, n-int64(len(img)))...)
		}
	}
	switch o.Kind {
	case 0:
		grow(o.Off + int64(len(o.Data)))
		copy(img[o.Off:], o.Data)
	case 2:
		grow(o.Off)
		img = img[:o.Off]
	}
	return img
}
