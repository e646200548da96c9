package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vos"
	"vibe-lsm/zzverif/vrt"
)

// outside tells whether a block's id range lies entirely outside the filter's.
func outside(b blk, allow *filt) bool {
	lo, hi := allow.set[0], allow.set[0]
	for _, x := range allow.set[1:] {
		lo = vrt.IteU(x < lo, x, lo)
		hi = vrt.IteU(x > hi, x, hi)
	}
	s := statsOf(b)
	return vrt.Or(s.maxID < lo, s.minID > hi)
}

func listCheck(r *col.Reader, bl []blk, allow, deny *filt) []bool {
	list := r.FilteredBlockIterator(allow.bitmap(), deny.bitmap())
	in := make([]bool, len(bl))
	for i, x := range list {
		vrt.Assert(x < uint64(len(bl)), "a candidate block does not exist")
		if x >= uint64(len(bl)) {
			return nil
		}
		if i > 0 {
			vrt.Assert(list[i-1] < x, "candidate blocks are not in ascending order without repeats")
		}
		in[x] = true
		vrt.Observe("block", x)
	}
	for i, b := range bl {
		any := false
		for _, id := range b.ids {
			any = vrt.Or(any, admitted(allow, deny, id))
		}
		if !in[i] {
			vrt.Assert(!any, "a block holding an admitted row is not a candidate")
		} else if allow != nil && len(allow.set) > 0 {
			vrt.Assert(!outside(b, allow), "a block outside the filter's id range is a candidate")
		}
	}
	return in
}

func chooseFilters(na, nd int) (allow, deny *filt) {
	k := vrt.Choose("filters", 4)
	if k&1 != 0 {
		allow = symFilter("allow", 1+vrt.Choose("na", na))
	}
	if k&2 != 0 {
		deny = symFilter("deny", nd)
	}
	return
}

// C12_List: candidate blocks of any filter.
// Bound: 0 to 4 blocks of 1 or 2 rows, allow filters of 1 to 3 ids and a deny
// filter of 2, all over the full range; fixed-width ids.
func C12_List() {
	shapes := [][]int{{}, {1}, {2}, {1, 1}, {2, 1, 1}}
	if vrt.Thorough() {
		shapes = append(shapes, []int{1, 1, 1, 1}, []int{2, 2, 2})
	}
	sh := shapes[vrt.Choose("shape", len(shapes))]
	enc := []uint32{0, 1, 6}[vrt.Choose("enc", 3)]
	bl := split(symU("id", total(sh)), symI("val", total(sh)), sh)
	if valsVar(enc) {
		for _, b := range bl {
			narrow(b.vals)
		}
	}
	allow, deny := chooseFilters(3, 2)
	write(path("a"), enc, 0, bl)
	r := open(path("a"))
	if r == nil {
		return
	}
	listCheck(r, bl, allow, deny)
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("listed")
}

// C12V_Reads: what queries read.
// Bound: 1 to 3 blocks of 1 or 2 rows, full range ids (raw and delta-coded),
// allow and deny filters of up to 2 ids, sequential, sequential with bitmap caching, and 2 workers.
func C12V_Reads() {
	vos.Reset()
	shapes := [][]int{{1}, {1, 1}, {2, 1, 1}}
	sh := shapes[vrt.Choose("shape", len(shapes))]
	enc := uint32(vrt.Choose("enc", 2))
	bl := split(symU("id", total(sh)), symI("val", total(sh)), sh)
	allow, deny := chooseFilters(2, 1)
	write("/a", enc, 0, bl)
	d, _ := vos.ReadFile("/a")
	f := decodeFile(d)
	if !f.ok || len(f.index) != len(bl) {
		return
	}
	r := open("/a")
	if r == nil {
		return
	}
	mode := vrt.Choose("mode", 3)
	if mode == 2 {
		r.EnableGlobalIDBitmapCaching()
	}
	vos.Counting = true
	vrt.Preempt(0)
	opts := col.AggregateOptions{Filter: allow.bitmap(), DenyFilter: deny.bitmap()}
	if mode == 1 {
		opts.Parallel = 2
	}
	if allow == nil && deny == nil {
		r.AggregateWithOptions(opts)
		vrt.Assert(len(vos.Reads) == 0, "an unfiltered aggregate from statistics reads file data")
		r.Aggregate()
		vrt.Assert(len(vos.Reads) == 0, "an unfiltered aggregate from statistics reads file data")
		vrt.Cover("unfiltered")
		return
	}
	in := listCheck(r, bl, allow, deny)
	if in == nil {
		return
	}
	vrt.Assert(len(vos.Reads) == 0, "listing candidate blocks reads file data")
	vos.Reads = nil
	if vrt.Choose("skip", 2) == 1 {
		opts.SkipPreCalculated = true
	}
	r.AggregateWithOptions(opts)
	for i := range bl {
		touched := false
		lo, hi := int64(f.index[i].off), int64(f.index[i].off+f.index[i].size)
		for _, rd := range vos.Reads {
			if rd.Off < hi && rd.Off+int64(rd.N) > lo {
				touched = true
			}
		}
		if touched {
			vrt.Assert(in[i], "a filtered aggregate reads an excluded block")
			if allow != nil {
				vrt.Assert(!outside(bl[i], allow), "a filtered aggregate reads a block outside the filter's id range")
			}
		}
	}
	vrt.Observe("reads", uint64(len(vos.Reads)))
	vrt.Cover("filtered")
}

// C12_Many: candidates among many blocks.
// Bound: 74 or 260 (thorough: 1200) blocks of one or two rows, the id of one of them symbolic; an allow filter of 3
// ids, fixed or with one that is any id next to those of one block, and no deny filter or one of two ids.
func C12_Many() {
	sym := vrt.Choose("allow", 2) == 1
	bl := manyBlocks(!sym)
	n := len(bl)
	x := uint64(41)
	if sym {
		x = vrt.U64("x")
		vrt.Assume(x >= bl[n-3].ids[0]-1 && x <= bl[n-3].ids[0]+4)
	}
	var deny *filt
	if vrt.Choose("deny", 2) == 1 {
		deny = newFilt([]uint64{bl[n-1].ids[0], bl[2].ids[0]})
	}
	write(path("a"), 0, 0, bl)
	r := open(path("a"))
	if r == nil {
		return
	}
	listCheck(r, bl, newFilt([]uint64{bl[1].ids[0], bl[n-2].ids[0], x}), deny)
	vrt.Cover("many listed")
}

// C12_Between: filters that hold the ends of a block's id range but perhaps not what is between.
// Bound: blocks of 3 rows, before or after another block, with fixed ids at the ends and any id (symbolic) between; an
// allow or a deny filter or both that hold both ends, and one id more that is any id (symbolic) or none; queried
// before and after one id of the filter is exchanged for another.
func C12_Between() {
	first := blk{[]uint64{3, vrt.U64("mid"), 9}, symI("val", 3)}
	other := blk{[]uint64{7, 1 << 33}, symI("other", 2)}
	bl := []blk{first, other}
	if vrt.Choose("order", 2) == 1 {
		bl = []blk{other, first}
	}
	set := []uint64{3, 9}
	if vrt.Choose("more", 2) == 1 {
		set = append(set, vrt.U64("x"))
	}
	var allow, deny *filt
	k := vrt.Choose("filters", 3)
	if k != 0 {
		allow = newFilt(set)
	}
	if k != 1 {
		deny = newFilt(set)
	}
	write(path("a"), 0, 0, bl)
	r := open(path("a"))
	if r == nil {
		return
	}
	check := func() {
		listCheck(r, bl, allow, deny)
		refFiltered(bl, allow, deny).match(filtered(r, allow, deny, false, 0), "aggregate with a filter of the ends of a block")
	}
	check()
	for _, f := range []*filt{allow, deny} {
		if f != nil {
			f.change(0, 1<<33)
		}
	}
	check()
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("between")
}
