package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

// crashed is what is on disk after the first cut operations on fn and, if torn
// is positive, that many bytes of the next write.
func crashed(base []byte, ops []vos.JOp, fn string, cut, torn int) (img []byte, exists bool) {
	img = append([]byte(nil), base...)
	exists = base != nil
	grow := func(n int64) {
		if int64(len(img)) < n {
			img = append(img, make([]byte, n-int64(len(img)))...)
		}
	}
	put := func(off int64, d []byte) {
		grow(off + int64(len(d)))
		copy(img[off:], d)
	}
	for i, o := range ops {
		if i > cut || (i == cut && torn <= 0) {
			break
		}
		if o.Name != fn {
			continue
		}
		d := o.Data
		if i == cut {
			if o.Kind != 0 {
				break
			}
			d = d[:torn]
		}
		switch o.Kind {
		case 0:
			put(o.Off, d)
		case 2:
			grow(o.Off)
			img = img[:o.Off]
		case 3:
			exists = true
		}
	}
	return
}

// crashPoint picks a point of the history and asserts that the image there is
// rejected or complete.
func crashPoint(base []byte, fn string, bl []blk) {
	ops := vos.Journal
	vos.Journing = false
	cut := vrt.Choose("cut", len(ops)+1)
	torn := 0
	if cut < len(ops) && ops[cut].Kind == 0 && len(ops[cut].Data) > 1 {
		n := len(ops[cut].Data)
		if vrt.Thorough() {
			torn = []int{0, 1, n / 2, n - 1}[vrt.Choose("torn", 4)]
		} else {
			torn = []int{0, n / 2}[vrt.Choose("torn", 2)]
		}
	}
	if cut == 0 && base != nil {
		// nothing has happened yet: the older file is still there
		return
	}
	img, exists := crashed(base, ops, fn, cut, torn)
	if !exists {
		vrt.Cover("no file")
		return
	}
	noErr(vos.WriteFile("/crashed", img, 0644), "the model fails")
	completeOrRejected("/crashed", bl)
}

// C14V_Writer: a crash at any point of a block writer's history.
// Bound: 0 to 3 blocks of one or two symbolic rows (numbers below 1000 in
// magnitude; trailer look-alikes are C14V_Mimic's), 3 encodings (thorough: 8), written
// over nothing or over an older, larger or smaller file; a crash after any
// operation or after half of any write (thorough: also after one or all but one byte).
func C14V_Writer() {
	vos.Reset()
	encs := []uint32{0, 3, 7}
	shapes := [][]int{{}, {2, 1}}
	if vrt.Thorough() {
		encs = []uint32{0, 1, 2, 3, 4, 5, 6, 7}
		shapes = append(shapes, []int{1}, []int{1, 1, 2})
	}
	enc := encs[vrt.Choose("enc", len(encs))]
	sh := shapes[vrt.Choose("shape", len(shapes))]
	bl := symBlocks(enc, sh, "")
	plain(bl)
	base := older("/a", []int{0, 6, 1}[vrt.Choose("older", 2+vrt.B2I(vrt.Thorough()))])
	vos.Journing = true
	w, err := newWriter("/a", enc, 0)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	for _, b := range bl {
		noErr(w.WriteBlock(b.ids, b.vals), "writing a block that fits fails")
	}
	noErr(w.FinalizeAndClose(), "finalizing fails")
	crashPoint(base, "/a", bl)
}

// C14V_Abandoned: a writer closed without finalizing never leaves a readable file.
// Bound: as above.
func C14V_Abandoned() {
	vos.Reset()
	enc := []uint32{0, 3, 4, 7}[vrt.Choose("enc", 4)]
	bl := symBlocks(enc, [][]int{{}, {1}, {2, 1}}[vrt.Choose("shape", 3)], "")
	plain(bl)
	older("/a", []int{0, 6}[vrt.Choose("older", 2)])
	w, err := newWriter("/a", enc, 0)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	for _, b := range bl {
		noErr(w.WriteBlock(b.ids, b.vals), "writing a block that fits fails")
	}
	noErr(w.Close(), "closing fails")
	_, err = col.NewReader("/a")
	vrt.Assert(err != nil, "a file that was never finalized opens")
	vrt.Cover("abandoned")
}

// C14V_Simple: a crash at any point of a simple writer's history.
// Bound: up to 2 batches of up to 2 rows in ascending id order, as above.
func C14V_Simple() {
	vos.Reset()
	enc := []uint32{0, 7}[vrt.Choose("enc", 2)]
	sh := [][]int{{2}, {1, 2}}[vrt.Choose("shape", 2)]
	n := total(sh)
	vals := symI("val", n)
	ids := make([]uint64, n)
	for i := range ids {
		ids[i] = uint64(3 * i)
	}
	b := blk{ids, vals}
	plain([]blk{b})
	if valsVar(enc) {
		narrow(vals)
	}
	one := vrt.Choose("target", 2) == 1
	var target uint32
	if one {
		target = 1
	}
	vos.Journing = true
	sw := newSimple("/a", enc, target)
	if sw == nil {
		return
	}
	submit(sw, split(ids, vals, sh))
	noErr(sw.Close(), "closing the simple writer fails")
	bl := []blk{b}
	if one {
		bl = nil
		for i := range ids {
			bl = append(bl, blk{ids[i : i+1], vals[i : i+1]})
		}
	}
	crashPoint(nil, "/a", bl)
}

// C14V_Split: a crash while a large submission is cut into blocks.
// Bound: 300 filler rows, one-page blocks, raw encoding; a crash after any
// operation or half of any write.
func C14V_Split() {
	vos.Reset()
	vos.Journing = true
	w, err := newWriter("/a", 0, 4096)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	b := filler(260, 0, 3)
	b.vals[0] = vrt.I64("val")
	plain([]blk{{b.ids[:1], b.vals[:1]}})
	bl := writeSplit(w, b)
	noErr(w.FinalizeAndClose(), "finalizing fails")
	if !vrt.Thorough() {
		// the row-by-row writes in the middle are alike
		cut := vrt.Range("cutat", 0, len(vos.Journal))
		vrt.Assume(vrt.Or(cut < 30, vrt.Or(cut > len(vos.Journal)-60, cut%41 == 0)))
		c := vrt.ConcreteInt(cut)
		img, _ := crashed(nil, vos.Journal, "/a", c, 0)
		noErr(vos.WriteFile("/crashed", img, 0644), "the model fails")
		completeOrRejected("/crashed", bl)
		return
	}
	crashPoint(nil, "/a", bl)
}

// C14V_Many: a crash at any point of a long history.
// Bound: 74 (thorough: 140) blocks of one row, or a simple writer fed 5000 rows; a crash right after
// any sync.
func C14V_Many() {
	vos.Reset()
	vos.Journing = true
	var bl []blk
	switch k := vrt.Choose("history", 2+vrt.B2I(vrt.Thorough())); k {
	case 1:
		sw := newSimple("/a", 0, 0)
		if sw == nil {
			return
		}
		for i := 0; i < 5; i++ {
			b := filler(1000, 0, uint64(i)*3000)
			noErr(sw.Write(b.ids, b.vals), "the simple writer rejects a batch")
			bl = append(bl, b)
		}
		noErr(sw.Close(), "closing the simple writer fails")
	default:
		for i := 0; i < 74+33*k; i++ {
			bl = append(bl, filler(1, 0, uint64(i)))
		}
		bl[3].vals[0] = vrt.I64("v")
		vrt.Assume(bl[3].vals[0] >= -1000 && bl[3].vals[0] < 1000)
		write("/a", 0, 0, bl)
	}
	ops := vos.Journal
	vos.Journing = false
	var cuts []int
	for i := range ops {
		if ops[i].Kind == 1 {
			cuts = append(cuts, i+1)
		}
	}
	const group = 8
	lo := group * vrt.Choose("group", (len(cuts)+group-1)/group)
	for i := lo; i < lo+group && i < len(cuts); i++ {
		cut := cuts[i]
		if img, exists := crashed(nil, ops, "/a", cut, 0); exists {
			noErr(vos.WriteFile("/crashed", img, 0644), "the model fails")
			r, err := col.NewReader("/crashed")
			if err == nil {
				n := 0
				for i := uint64(0); i < r.BlockCount(); i++ {
					ids, _, err := r.GetPairs(i)
					vrt.Assert(err == nil, "a partially written file opens but a block cannot be read")
					n += len(ids)
				}
				vrt.Assert(n == rowsOf(bl), "a partially written file opens with another number of rows")
				noErr(r.Close(), "closing the reader fails")
				vrt.Cover("complete")
			}
		}
	}
	vrt.Cover("cut")
}

// C14V_Mimic: rows that imitate the trailer.
// Bound: one block of 3 rows whose last value is the magic number, raw encoding,
// ids and other values over the full range.
func C14V_Mimic() {
	vos.Reset()
	b := blk{symU("id", 3), symI("val", 3)}
	b.vals[2] = 0x5642455F434F4C00
	vos.Journing = true
	w, err := newWriter("/a", 0, 0)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	noErr(w.WriteBlock(b.ids, b.vals), "writing a block that fits fails")
	noErr(w.FinalizeAndClose(), "finalizing fails")
	for i, o := range vos.Journal {
		if o.Kind == 0 && len(o.Data) == 8 && o.Off == 64+80+5*8 {
			img, _ := crashed(nil, vos.Journal, "/a", i+1, 0)
			vos.Journing = false
			noErr(vos.WriteFile("/crashed", img, 0644), "the model fails")
			r, err := col.NewReader("/crashed")
			if err != nil {
				vrt.Cover("rejected")
				return
			}
			vrt.Assert(r.BlockCount() == 1, "a partially written file whose last value is the magic number opens as another file")
			return
		}
	}
	vrt.Cover("rejected")
}
