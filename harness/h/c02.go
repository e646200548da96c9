package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vrt"
)

// sameBag asserts that rows of a batch are stored in ascending id order as the same multiset.
func sameBag(ids []uint64, vals []int64, b blk) {
	for i := 1; i < len(ids); i++ {
		vrt.Assert(ids[i-1] <= ids[i], "the rows of a batch are not in ascending id order")
	}
	for i := range b.ids {
		in, out := 0, 0
		for k := range b.ids {
			in += vrt.B2I(vrt.And(b.ids[k] == b.ids[i], b.vals[k] == b.vals[i]))
			out += vrt.B2I(vrt.And(ids[k] == b.ids[i], vals[k] == b.vals[i]))
		}
		vrt.Assert(in == out, "a row handed to the simple writer is lost, duplicated or re-paired")
	}
}

func simpleCheck(fn string, batches []blk) {
	ids, vals, ok := readRows(fn)
	if !ok {
		return
	}
	n := rowsOf(batches)
	vrt.Assert(len(ids) == n, "the number of rows stored differs from the number handed in")
	if len(ids) != n {
		return
	}
	k := 0
	for _, b := range batches {
		e := k + len(b.ids)
		sameBag(ids[k:e], vals[k:e], b)
		k = e
	}
	for i := range ids {
		vrt.Observe("id", ids[i])
		vrt.Observe("val", uint64(vals[i]))
	}
	vrt.Cover("stored")
}

// C02_Small: a few small batches in any order, duplicates included.
// Bound: up to 3 batches, at most 3 rows in total, all symbolic; 8 encodings (a
// variable-length section full range while the other one holds one-byte numbers);
// default target or one byte.
func C02_Small() {
	shapes := [][]int{{}, {1}, {2}, {0, 1}, {1, 1}, {1, 2}, {2, 1}, {1, 0, 1, 1}}
	sh := shapes[vrt.Choose("shape", len(shapes))]
	enc := uint32(vrt.Choose("enc", nEnc))
	n := total(sh)
	ids, vals := symU("id", n), symI("val", n)
	narrow(vals)
	if idsVar(enc) {
		for _, x := range ids {
			vrt.Assume(x < 128)
		}
	}
	target := []uint32{0, 1}[vrt.Choose("target", 2)]
	bl := split(ids, vals, sh)
	sw := newSimple(path("a"), enc, target)
	if sw == nil {
		return
	}
	submit(sw, bl)
	simpleClose(sw, n)
	simpleCheck(path("a"), bl)
}

// C02_Sort: one batch in every order.
// Bound: 3 to 5 rows (thorough: 6) with full-range ids and values, raw encoding.
func C02_Sort() {
	n := 3 + vrt.Choose("n", 3)
	if vrt.Thorough() {
		n++
	}
	b := []blk{{symU("id", n), symI("val", n)}}
	sw := newSimple(path("a"), 0, 0)
	if sw == nil {
		return
	}
	submit(sw, b)
	simpleClose(sw, n)
	simpleCheck(path("a"), b)
}

// C02_Flush: batches around the flush threshold and targets that split blocks.
// Bound: fixed lists of batch sizes up to 2500 rows in total, sorted or
// descending; the value of one row symbolic over all of int64.
func C02_Flush() {
	shapes := [][]int{{999, 1}, {1001}, {600, 7, 600}, {1000, 3}}
	targets := []uint32{0, 4096, 1 << 20}
	encs := []uint32{0, 3, 7}
	if vrt.Thorough() {
		shapes = append(shapes, []int{1000}, []int{999}, []int{1000, 1000}, []int{400, 400, 400, 400}, []int{2500})
		targets = append(targets, 5000, 100)
		encs = []uint32{0, 1, 2, 3, 4, 5, 6, 7}
	}
	sh := shapes[vrt.Choose("shape", len(shapes))]
	enc := encs[vrt.Choose("enc", len(encs))]
	target := targets[vrt.Choose("target", len(targets))]
	up := vrt.Choose("sorted", 2) == 0
	late := vrt.Choose("set", 2) == 1 && target != 0
	var bl []blk
	for i, n := range sh {
		bl = append(bl, ordered(n, up, uint64(50*i)))
	}
	last := bl[len(bl)-1]
	at := len(last.vals) / 2
	last.vals[at] = vrt.I64("val")
	var sw *col.SimpleWriter
	if late {
		sw = newSimple(path("a"), enc, 0)
		if sw == nil {
			return
		}
		noErr(sw.SetTargetBlockSize(int(target)), "setting the target block size fails")
	} else if sw = newSimple(path("a"), enc, target); sw == nil {
		return
	}
	submit(sw, bl)
	n := rowsOf(bl)
	simpleClose(sw, n)
	ids, vals, ok := readRows(path("a"))
	if !ok {
		return
	}
	vrt.Assert(len(ids) == n, "the number of rows stored differs from the number handed in")
	if len(ids) != n {
		return
	}
	k := 0
	for _, b := range bl {
		for i := range b.ids {
			j := i
			if !up {
				j = len(b.ids) - 1 - i
			}
			vrt.Assert(ids[k] == b.ids[j], "an id of a batch is lost, duplicated or out of order")
			vrt.Assert(vals[k] == b.vals[j], "a row handed to the simple writer is re-paired")
			k++
		}
	}
	vrt.Observe("rows", uint64(k))
	vrt.Cover("stored")
}

// C02_Batches: many batches.
// Bound: 30, 300 or 1100 batches of 1 to 9 filler rows, in no order, of which one value is symbolic; default or
// 4096-byte target, raw encoding; the target size changed half way or not.
func C02_Batches() {
	n := []int{30, 300, 1100}[vrt.Choose("n", 3)]
	var bl []blk
	for i := 0; i < n; i++ {
		k := 1 + (i*5)%9
		if n == 1100 {
			k = 1 + i%2
		}
		bl = append(bl, ordered(k, i%3 != 0, uint64(i*37%n)))
	}
	bl[n-2].vals[0] = vrt.I64("val")
	sw := newSimple(path("a"), 0, []uint32{0, 4096}[vrt.Choose("target", 2)])
	if sw == nil {
		return
	}
	submit(sw, bl[:n/2])
	if vrt.Choose("set", 2) == 1 {
		noErr(sw.SetTargetBlockSize(5000), "setting the target block size fails")
	}
	submit(sw, bl[n/2:])
	simpleClose(sw, rowsOf(bl))
	ids, vals, ok := readRows(path("a"))
	if !ok {
		return
	}
	var wi []uint64
	var wv []int64
	for i, b := range bl {
		for j := range b.ids {
			if i%3 == 0 {
				j = len(b.ids) - 1 - j
			}
			wi, wv = append(wi, b.ids[j]), append(wv, b.vals[j])
		}
	}
	vrt.Assert(len(ids) == len(wi), "the number of rows stored differs from the number handed in")
	vrt.Assert(vrt.And(sameU(ids, wi), sameI(vals, wv)), "rows of many batches are lost, duplicated, out of order or re-paired")
	vrt.Cover("batches stored")
}

// C02_Disorder: long batches that are nearly in order.
// Bound: one batch of 40, 520 or 1100 rows whose ids ascend but for two neighbours at the start, near it, in the
// middle or at the end, or a first row at the end, or one id that is any odd number next to where it belongs
// (symbolic); one symbolic value.
func C02_Disorder() {
	n := []int{40, 520, 1100}[vrt.Choose("n", 3)]
	b := blk{make([]uint64, n), make([]int64, n)}
	for i := range b.ids {
		b.ids[i], b.vals[i] = uint64(2*i)+10, int64(i)*3-50
	}
	p := []int{0, 3, n / 2, n - 2}[vrt.Choose("at", 4)]
	b.vals[p] = vrt.I64("val")
	want := blk{cpU(b.ids), cpI(b.vals)}
	switch vrt.Choose("kind", 3) {
	case 0:
		b.ids[p], b.ids[p+1] = b.ids[p+1], b.ids[p]
		b.vals[p], b.vals[p+1] = b.vals[p+1], b.vals[p]
	case 1:
		b.ids = append(b.ids[1:n:n], b.ids[0])
		b.vals = append(b.vals[1:n:n], b.vals[0])
	case 2:
		x := vrt.U64("id")
		vrt.Assume(x&1 == 1 && x+5 > b.ids[p] && x < b.ids[p]+5)
		b.ids[p] = x
		v := want.vals[p]
		rest := blk{append(cpU(want.ids[:p]), want.ids[p+1:]...), append(cpI(want.vals[:p]), want.vals[p+1:]...)}
		k := 0
		for k < len(rest.ids) && rest.ids[k] < x {
			k++
		}
		want = blk{append(append(cpU(rest.ids[:k]), x), rest.ids[k:]...), append(append(cpI(rest.vals[:k]), v), rest.vals[k:]...)}
	}
	sw := newSimple(path("a"), 0, []uint32{0, 1 << 20}[vrt.Choose("target", 2)])
	if sw == nil {
		return
	}
	submit(sw, []blk{b})
	simpleClose(sw, n)
	ids, vals, ok := readRows(path("a"))
	if !ok {
		return
	}
	vrt.Assert(len(ids) == n, "the number of rows stored differs from the number handed in")
	vrt.Assert(vrt.And(sameU(ids, want.ids), sameI(vals, want.vals)), "rows of a long batch are lost, duplicated, out of order or re-paired")
	vrt.Cover("long batch stored")
}
