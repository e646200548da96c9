package h

import (
	"vibe-lsm/zzverif/vrt"
)

func filterCheck(fn string, bl []blk, allow, deny *filt) {
	r := open(fn)
	if r == nil {
		return
	}
	want := refFiltered(bl, allow, deny)
	skip := vrt.Choose("skip", 2) == 1
	want.match(filtered(r, allow, deny, skip, 0), "filtered aggregate")
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("aggregated")
}

// C04_Symbolic: any rows against any filters, up to three blocks.
// Bound: raw encoding; up to 3 rows; allow and deny filters absent or of 0 to 2 ids.
func C04_Symbolic() {
	shapes := [][]int{{1}, {2}, {1, 1}, {2, 1}, {1, 1, 1}}
	sh := shapes[vrt.Choose("shape", len(shapes))]
	n := total(sh)
	bl := split(symU("id", n), symI("val", n), sh)
	na := vrt.Choose("allow", 4) - 1
	nd := vrt.Choose("deny", 3) - 1
	if !vrt.Thorough() && n == 3 {
		vrt.Assume(na+nd < 3)
	}
	write(path("a"), 0, 0, bl)
	filterCheck(path("a"), bl, symFilter("allow", na), symFilter("deny", nd))
}

// C04_Encodings: every encoding, two blocks.
// Bound: ids and values of the variable-length sections in one byte; filters of at most 2 ids.
func C04_Encodings() {
	enc := 1 + uint32(vrt.Choose("enc", nEnc-1))
	bl := symBlocks(enc, []int{2, 1}, "")
	k := vrt.Choose("filters", 3)
	var allow, deny *filt
	if k != 1 {
		allow = symFilter("allow", 2)
	}
	if k != 0 {
		deny = symFilter("deny", 1)
	}
	write(path("a"), enc, 0, bl)
	filterCheck(path("a"), bl, allow, deny)
}

// C04_Ranges: filler blocks with interleaved id ranges, one symbolic filter id per filter
// on top of concrete ones.
// Bound: up to 6 blocks of up to 40 rows; 3 fillers; 8 encodings.
func C04_Ranges() {
	enc := uint32(vrt.Choose("enc", nEnc))
	kind := vrt.Choose("kind", 3)
	var bl []blk
	nb := 3
	if vrt.Thorough() {
		nb = 6
	}
	for i := 0; i < nb; i++ {
		b := filler(3+5*i, kind, uint64(i*2))
		if kind == 0 {
			for k := range b.ids {
				b.ids[k] += uint64(40 * i) // neighbouring ranges overlap
			}
		}
		bl = append(bl, b)
	}
	aset := []uint64{vrt.U64("allow"), bl[1].ids[1], bl[nb-1].ids[0], 12345678}
	dset := []uint64{vrt.U64("deny"), bl[1].ids[0], bl[nb-1].ids[0]}
	var allow, deny *filt
	if k := vrt.Choose("filters", 4); k == 0 {
		allow = newFilt(aset)
	} else if k == 1 {
		deny = newFilt(dset)
	} else if k == 2 {
		allow, deny = newFilt(aset), newFilt(dset)
	} else {
		allow = newFilt(aset[:1])
	}
	write(path("a"), enc, 0, bl)
	filterCheck(path("a"), bl, allow, deny)
}

// C04_Subsets: blocks of known ids against filters of any ids, so that a filter may hold
// the ends of a block and not its middle, all of it, or nothing.
// Bound: blocks of 3, 3 and 1 rows with fixed ids and symbolic values; an allow or a deny
// filter of 4 symbolic ids, or both of 3 and 2 (thorough: 5, or 4 and 3); raw encoding.
func C04_Subsets() {
	bl := split([]uint64{3, 5, 9, 1 << 40, 9, 4, 3}, symI("val", 7), []int{3, 3, 1})
	na, nd := 3, 2
	k := vrt.Choose("filters", 3)
	if vrt.Thorough() {
		na, nd = 4, 3
	}
	if k == 0 {
		na, nd = na+1, -1
	} else if k == 1 {
		na, nd = -1, na+1
	}
	write(path("a"), 0, 0, bl)
	filterCheck(path("a"), bl, symFilter("allow", na), symFilter("deny", nd))
}

// C04_Many: filters over many blocks.
// Bound: 74 or 260 (thorough: 1200) blocks of one or two rows, one symbolic value; an allow filter of 5 ids of far
// apart blocks or a deny filter of 4, one of which is any id next to those of one block, or fixed filters of both kinds.
func C04_Many() {
	bl := manyBlocks(false)
	n := len(bl)
	x := bl[n-2].ids[0]
	k := vrt.Choose("filters", 3)
	if k < 2 {
		x = vrt.U64("x")
		vrt.Assume(x >= bl[n-3].ids[0]-1 && x <= bl[n-3].ids[0]+4)
		x = vrt.Concrete(x)
	}
	a := newFilt([]uint64{bl[1].ids[0], bl[n-2].ids[0], bl[n-1].ids[0], bl[n/2].ids[0], x})
	d := newFilt([]uint64{bl[0].ids[0], bl[n-1].ids[0], bl[n/2].ids[0], x})
	switch k {
	case 0:
		d = nil
	case 1:
		a = nil
	}
	write(path("a"), 0, 0, bl)
	filterCheck(path("a"), bl, a, d)
}

// C04_Changed: filters that are changed between queries on one reader.
// Bound: blocks of 2, 2 and 1 rows with fixed ids and symbolic values; an allow, a deny or both filters of two ids, of
// which one becomes any id (symbolic) and then a stored one; sequential or with 2 workers in the
// default schedule; queried before and after each change.
func C04_Changed() {
	bl := split([]uint64{3, 5, 9, 1 << 40, 20}, symI("val", 5), []int{2, 2, 1})
	k := vrt.Choose("filters", 3)
	x := []uint64{3, vrt.U64("x"), 20}
	var allow, deny *filt
	if k != 1 {
		allow = newFilt([]uint64{x[0], 5})
	}
	if k != 0 {
		deny = newFilt([]uint64{9, x[0]})
	}
	skip, par := vrt.Choose("skip", 2) == 1, 2*vrt.Choose("par", 2)
	vrt.Preempt(0)
	write(path("a"), 0, 0, bl)
	r := open(path("a"))
	if r == nil {
		return
	}
	for i := 0; ; i++ {
		refFiltered(bl, allow, deny).match(filtered(r, allow, deny, skip, par), "aggregate with a filter in use before")
		if i == 2 {
			break
		}
		if allow != nil {
			allow.change(0, x[i+1])
		}
		if deny != nil && (allow == nil || i == 1) {
			deny.change(1, x[i+1])
		}
	}
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("changed")
}

// C04_Wide: filters of many ids over large blocks.
// Bound: blocks of 1500 filler rows in ascending order, 600 in descending order with repeated ids and 5 in none, two
// symbolic values; an allow filter of none, every seventh or a run of 1200 ids or of ids from 2^63, a deny
// filter of none, every fifth or a run of 700 ids; sequential and with 3 workers in the default schedule.
func C04_Wide() {
	bl := []blk{filler(1500, 0, 4), filler(600, 2, 0), {[]uint64{9, 1<<63 + 2, 7, 9, 1 << 20}, []int64{5, vrt.I64("v"), 7, -8, 9}}}
	for i := range bl[1].ids {
		bl[1].ids[i] = bl[1].ids[i-i%3] / 20
	}
	bl[0].vals[77] = vrt.I64("w")
	run := func(n int, first, step uint64) *filt {
		s := make([]uint64, n)
		for i := range s {
			s[i] = first + uint64(i)*step
		}
		return newFilt(s)
	}
	var allow, deny *filt
	switch vrt.Choose("allow", 4) {
	case 1:
		allow = run(700, 0, 7)
	case 2:
		allow = run(1200, 300, 1)
	case 3:
		allow = run(40, 1<<63-20, 1)
	}
	switch vrt.Choose("deny", 3) {
	case 1:
		deny = run(900, 0, 5)
	case 2:
		deny = run(700, 1000, 1)
	}
	if allow == nil && deny == nil {
		return
	}
	write(path("a"), 0, 1<<20, bl)
	r := open(path("a"))
	if r == nil {
		return
	}
	has := func(f *filt) func(id uint64) bool {
		m := map[uint64]bool{}
		if f != nil {
			for _, x := range f.set {
				m[x] = true
			}
		}
		return func(id uint64) bool { return m[id] }
	}
	al, de := has(allow), has(deny)
	want := &ref{}
	for _, b := range bl {
		for i, id := range b.ids {
			if (allow == nil || al(id)) && !de(id) {
				want.add(b.vals[i], true)
			}
		}
	}
	want.match(filtered(r, allow, deny, false, 0), "aggregate under large filters")
	want.match(filtered(r, allow, deny, true, 3), "aggregate of workers under large filters")
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("wide")
}
