package h

import (
	"vibe-lsm/pkg/col"
	"vibe-lsm/zzverif/vrt"
)

func parCheck(fn string, opts col.AggregateOptions, workers int) {
	r := open(fn)
	if r == nil {
		return
	}
	opts.Parallel = 0
	seq := r.AggregateWithOptions(opts)
	opts.Parallel = workers
	par := r.AggregateWithOptions(opts)
	same(par, seq, "the parallel aggregate differs from the sequential one")
	vrt.Observe("count", uint64(par.Count))
	vrt.Observe("sum", uint64(par.Sum))
	noErr(r.Close(), "closing the reader fails")
	vrt.Cover("compared")
}

// C05_Stats: parallel aggregation from statistics, all schedules.
// Bound: 0 to 4 blocks of one row with full-range values; -1 to 3 workers; every
// interleaving of the workers' synchronisation operations.
func C05_Stats() {
	nb := vrt.Choose("blocks", 5)
	sh := make([]int, nb)
	for i := range sh {
		sh[i] = 1
	}
	bl := split(symU("id", nb), symI("val", nb), sh)
	w := []int{1, 2, 3, -1, 7, -5, 0}[vrt.Choose("workers", 7)]
	vrt.SetProcs(3)
	write(path("a"), 0, 0, bl)
	parCheck(path("a"), col.AggregateOptions{}, w)
}

// C05_Rows: parallel aggregation reading rows, with and without filters.
// Bound: 2 or 3 blocks of one or two rows; 2 or 3 workers; filters of one or two symbolic ids.
func C05_Rows() {
	sh := [][]int{{1, 1}, {2, 1, 1}}[vrt.Choose("shape", 2)]
	n := total(sh)
	bl := split(symU("id", n), symI("val", n), sh)
	w := 2 + vrt.Choose("workers", 2)
	var opts col.AggregateOptions
	switch vrt.Choose("filters", 4) {
	case 0:
		opts.SkipPreCalculated = true
	case 1:
		opts.Filter = symFilter("allow", 2).bm
	case 2:
		opts.DenyFilter = symFilter("deny", 1).bm
	case 3:
		opts.Filter, opts.DenyFilter = symFilter("allow", 2).bm, symFilter("deny", 1).bm
	}
	enc := uint32(0)
	write(path("a"), enc, 0, bl)
	parCheck(path("a"), opts, w)
}

// C05_Partition: block counts that do not divide evenly, one symbolic value.
// Bound: up to 9 blocks and 8 workers; the default schedule (quick) or all schedules
// with one deviation from it (thorough).
func C05_Partition() {
	nb := 2 + vrt.Choose("blocks", 8)
	w := 1 + vrt.Choose("workers", 9)
	if w == 9 {
		w = -1
	}
	var bl []blk
	for i := 0; i < nb; i++ {
		bl = append(bl, filler(1+i%3, 2, uint64(i)))
	}
	b := bl[vrt.Choose("where", 3)*(nb-1)/2]
	b.vals[0] = vrt.I64("val")
	vrt.SetProcs(4)
	if vrt.Thorough() {
		vrt.Preempt(1)
	} else {
		vrt.Preempt(0)
	}
	write(path("a"), 0, 0, bl)
	var opts col.AggregateOptions
	switch vrt.Choose("mode", 3) {
	case 0:
		opts.SkipPreCalculated = true
	case 1:
		opts.DenyFilter = newFilt([]uint64{bl[0].ids[0], bl[nb-1].ids[0]}).bm
	}
	parCheck(path("a"), opts, w)
}

// C05_Many: many blocks.
// Bound: 74 or 260 (thorough: 1200) blocks of one or two rows, one symbolic value; 3, 16 or 300 workers, the default schedule.
func C05_Many() {
	bl := manyBlocks(false)
	vrt.Preempt(0)
	write(path("a"), 0, 0, bl)
	var opts col.AggregateOptions
	switch vrt.Choose("mode", 3) {
	case 0:
		opts.SkipPreCalculated = true
	case 1:
		opts.DenyFilter = newFilt([]uint64{bl[0].ids[0], bl[len(bl)-1].ids[0]}).bm
	}
	parCheck(path("a"), opts, []int{3, 16, 300}[vrt.Choose("workers", 3)])
}
