package h

import (
	"strconv"

	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

const sector = 512

// powerLoss picks a point of the history and what the disk holds if the power
// fails there: everything up to the last sync before it; after that, each
// sector as some number of the later writes to it left it, and the file as
// long as some of these writes made it. Creation and truncation of the file
// are taken to reach the disk in order. The point is not among the first after
// operations. It reports whether the point is the end.
func powerLoss(fn string, after int) (img []byte, end bool) {
	ops := vos.Journal
	vos.Journing = false
	// a loss between two syncs leaves nothing that one just before the second could not
	var points []int
	for i, o := range ops {
		if o.Name == fn && o.Kind == 1 {
			points = append(points, i)
		}
	}
	points = append(points, len(ops))
	first := 0
	for points[first] < after {
		first++
	}
	p := first + vrt.Choose("loss", len(points)-first)
	cut, from := points[p], 0
	if p > 0 {
		from = points[p-1]
	}
	for i := 0; i < from; i++ {
		if ops[i].Name == fn {
			img = apply(img, ops[i])
		}
	}
	sizes := []int64{int64(len(img))}
	full := int64(len(img))
	for _, o := range ops[from:cut] {
		if o.Name != fn {
			continue
		}
		if o.Kind == 2 {
			// only when the file is created
			img, sizes, full = apply(img, o), []int64{o.Off}, o.Off
		}
		if e := o.Off + int64(len(o.Data)); o.Kind == 0 && e > full {
			sizes, full = append(sizes, e), e
		}
	}
	if n := len(sizes); n > 60 && !vrt.Thorough() {
		// the entries of the index are alike
		var some []int64
		for i, z := range sizes {
			if i < 30 || i > n-20 || i%13 == 0 {
				some = append(some, z)
			}
		}
		sizes = some
	}
	size := sizes[len(sizes)-1-vrt.Choose("short", len(sizes))]
	if grown := size - int64(len(img)); grown > 0 {
		img = append(img, make([]byte, grown)...)
	}
	// writes per sector
	writes := map[int64]int{}
	each(ops[from:cut], fn, size, func(s, off int64, d []byte) { writes[s]++ })
	kept := map[int64]int{}
	all := (size + sector - 1) / sector
	for s := int64(0); s < all; s++ {
		if writes[s] > 0 {
			// the number of bytes of a bitmap differs between model and real code:
			// count from both ends
			name := "lost" + strconv.Itoa(int(s))
			if s >= all-12 {
				name = "lastlost" + strconv.Itoa(int(all-s))
			}
			kept[s] = writes[s] - vrt.Range(name, 0, writes[s])
		}
	}
	seen := map[int64]int{}
	each(ops[from:cut], fn, size, func(s, off int64, d []byte) {
		m := byte(0) - byte(vrt.B2I(kept[s] > seen[s]))
		seen[s]++
		for i := range d {
			old := img[off+int64(i)]
			img[off+int64(i)] = old&^m | d[i]&m
		}
	})
	return img, p == len(points)-1
}

// each visits the part of every write to fn below size, cut at sector bounds.
func each(ops []vos.JOp, fn string, size int64, f func(s, off int64, d []byte)) {
	for _, o := range ops {
		if o.Name != fn || o.Kind != 0 {
			continue
		}
		off, d := o.Off, o.Data
		if off >= size {
			continue
		}
		if int64(len(d)) > size-off {
			d = d[:size-off]
		}
		for len(d) > 0 {
			s := off / sector
			n := min(int64(len(d)), (s+1)*sector-off)
			f(s, off, d[:n])
			d, off = d[n:], off+n
		}
	}
}

func lossOf(fn string, bl []blk, after int) {
	img, end := powerLoss(fn, after)
	noErr(vos.WriteFile("/lost", img, 0644), "the model fails")
	if end {
		vrt.Cover("finalized")
		r, err := col.NewReader("/lost")
		noErr(err, "a file that was finalized does not open after a power loss")
		if err != nil {
			return
		}
		noErr(r.Close(), "closing the reader fails")
	}
	completeOrRejected("/lost", bl)
}

// C26V_Writer: a power loss at any point of a block writer's history.
// Bound: 0 or 2 (thorough: 0 to 3) blocks of one (or two) symbolic rows (numbers
// below 1000 in magnitude), 2 encodings (thorough: 8), written over nothing or
// over an older file.
func C26V_Writer() {
	vos.Reset()
	encs := []uint32{0, 7}
	shapes := [][]int{{}, {1, 1}}
	if vrt.Thorough() {
		encs = []uint32{0, 1, 2, 3, 4, 5, 6, 7}
		shapes = append(shapes, []int{1}, []int{2, 1}, []int{1, 1, 2})
	}
	enc := encs[vrt.Choose("enc", len(encs))]
	sh := shapes[vrt.Choose("shape", len(shapes))]
	bl := symBlocks(enc, sh, "")
	plain(bl)
	if enc == 0 || vrt.Thorough() {
		older("/a", []int{0, 6}[vrt.Choose("older", 2)])
	}
	vos.Journing = true
	w, err := newWriter("/a", enc, 0)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	for _, b := range bl {
		noErr(w.WriteBlock(b.ids, b.vals), "writing a block that fits fails")
	}
	noErr(w.FinalizeAndClose(), "finalizing fails")
	lossOf("/a", bl, 0)
}

// C26V_Simple: a power loss at any point of a simple writer's history.
// Bound: up to 2 batches of up to 2 rows in ascending id order, in one block or
// one block per row, 2 encodings.
func C26V_Simple() {
	vos.Reset()
	enc := []uint32{0, 7}[vrt.Choose("enc", 2)]
	sh := [][]int{{2}, {1, 2}}[vrt.Choose("shape", 2)]
	n := total(sh)
	vals := symI("val", n)
	ids := make([]uint64, n)
	for i := range ids {
		ids[i] = uint64(3 * i)
	}
	b := blk{ids, vals}
	plain([]blk{b})
	if valsVar(enc) {
		narrow(vals)
	}
	one := vrt.Choose("target", 2) == 1
	var target uint32
	if one {
		target = 1
	}
	vos.Journing = true
	sw := newSimple("/a", enc, target)
	if sw == nil {
		return
	}
	submit(sw, split(ids, vals, sh))
	noErr(sw.Close(), "closing the simple writer fails")
	bl := []blk{b}
	if one {
		bl = nil
		for i := range ids {
			bl = append(bl, blk{ids[i : i+1], vals[i : i+1]})
		}
	}
	lossOf("/a", bl, 0)
}

// C26V_Index: a power loss while an index of more than a page is written.
// Bound: 74 blocks of one row, or of eight rows whose ids make the bitmap as
// long as several pages; a loss at or after the last sync of a block (quick: 90 of the 600 lengths of the file).
func C26V_Index() {
	vos.Reset()
	vos.Journing = true
	wide := vrt.Choose("wide", 2) == 1
	var bl []blk
	for i := 0; i < 74; i++ {
		b := filler(1, 0, uint64(i))
		if wide {
			b = filler(8, 0, uint64(i))
			for k := range b.ids {
				b.ids[k] = uint64(8*i+k) << 16
			}
		}
		bl = append(bl, b)
	}
	bl[3].vals[0] = vrt.I64("v")
	vrt.Assume(bl[3].vals[0] >= -1000 && bl[3].vals[0] < 1000)
	w, err := newWriter("/a", 0, 0)
	noErr(err, "creating a file fails")
	if err != nil {
		return
	}
	for _, b := range bl {
		noErr(w.WriteBlock(b.ids, b.vals), "writing a block that fits fails")
	}
	n := len(vos.Journal)
	noErr(w.FinalizeAndClose(), "finalizing fails")
	lossOf("/a", bl, n)
}
