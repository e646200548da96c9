package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

// C28V_Open: a file is opened while it is being written.
// Bound: 0 or 2 (thorough: also 1) blocks of one or two symbolic rows (numbers below 1000 in
// magnitude), 2 encodings (thorough: 3); the writer is after any of its operations (quick: after a sync or, in finalizing,
// one of three) when the reader starts; before any one file operation of the reader it moves on by any number of
// these, and before any later one (or after opening) to the end.
func C28V_Open() {
	vos.Reset()
	encs := []uint32{0, 7}
	shapes := [][]int{{}, {1, 1}}
	if vrt.Thorough() {
		encs = []uint32{0, 3, 7}
		shapes = [][]int{{}, {1}, {1, 2}}
	}
	sh := shapes[vrt.Choose("shape", len(shapes))]
	if len(sh) == 0 {
		encs = encs[:1]
	}
	enc := encs[vrt.Choose("enc", len(encs))]
	bl := symBlocks(enc, sh, "")
	plain(bl)
	vos.Journing = true
	w, err := newWriter("/a", enc, 0)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	for _, b := range bl {
		noErr(w.WriteBlock(b.ids, b.vals), "writing a block that fits fails")
	}
	noErr(w.FinalizeAndClose(), "finalizing fails")
	vos.Journing = false
	live("/a", bl)
}

// C28V_Simple: a file of a simple writer is opened while it is being written.
// Bound: 2 batches of 2 rows, one symbolic, in one block or one block per row; as above.
func C28V_Simple() {
	vos.Reset()
	var target uint32
	one := vrt.Choose("target", 2) == 1
	if one {
		target = 1
	}
	vals := []int64{vrt.I64("v"), 5, -6, 7}
	ids := []uint64{0, 3, 6, 9}
	b := blk{ids, vals}
	plain([]blk{b})
	vos.Journing = true
	sw := newSimple("/a", 0, target)
	if sw == nil {
		return
	}
	submit(sw, split(ids, vals, []int{2, 2}))
	noErr(sw.Close(), "closing the simple writer fails")
	vos.Journing = false
	bl := []blk{b}
	if one {
		bl = nil
		for i := range ids {
			bl = append(bl, blk{ids[i : i+1], vals[i : i+1]})
		}
	}
	live("/a", bl)
}

func live(fn string, bl []blk) {
	var ops []vos.JOp
	sync := 0 // the operations up to the last sync of a block
	syncs := 0
	for _, o := range vos.Journal {
		if o.Kind == 1 {
			syncs++
		}
	}
	stops := []int{0}
	for _, o := range vos.Journal {
		if o.Name == fn && (o.Kind == 0 || o.Kind == 2) {
			ops = append(ops, o)
		}
		if o.Name == fn && o.Kind == 1 {
			if sync++; sync < syncs-1 {
				// rows and index entries are alike
				if !vrt.Thorough() {
					stops = stops[:1]
				}
				stops = append(stops, len(ops))
			}
		} else if stops[len(stops)-1] < len(ops) && (vrt.Thorough() || len(ops)%3 == 1 || len(o.Data) > 8) {
			stops = append(stops, len(ops))
		}
	}
	var img []byte
	at := 0
	to := func(n int) {
		for ; at < n; at++ {
			img = apply(img, ops[at])
		}
		vos.Put("/live", img)
	}
	n := len(ops)
	if stops[len(stops)-1] < n {
		stops = append(stops, n)
	}
	k := vrt.Choose("start", len(stops))
	i, j := stops[k], stops[k+vrt.Choose("moves", len(stops)-k)]
	first, last := 0, 8
	if j > i {
		first = vrt.Choose("first", 6)
	}
	if j < n {
		last = []int{first + 1, 8, first + 2}[vrt.Choose("last", 2+vrt.B2I(vrt.Thorough()))]
	}
	noErr(vos.WriteFile("/live", nil, 0644), "the model fails")
	to(i)
	reads := 0
	vos.OnRead = func() {
		if reads == first {
			to(j)
		}
		if reads == last {
			to(n)
		}
		reads++
	}
	r, err := col.NewReader("/live")
	vos.OnRead = nil
	to(n)
	if err != nil {
		vrt.Cover("rejected")
		return
	}
	vrt.Cover("opened")
	complete(r, bl)
	noErr(r.Close(), "closing the reader fails")
}
