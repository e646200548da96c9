prop = 'C04'
needs = 'An allow filter that is a contiguous range covering a block, and a deny filter whose largest id is the first id of the block.'
what = 'Blocks wholly inside a contiguous allow filter are answered from their statistics when the deny filter ends at or before their first id.'
edits = [('pkg/col/reader_aggregate.go', '''	for _, blockIdx := range matchingBlocks {
		// Read block with filtering
''', '''	// Blocks inside a contiguous filter need not be read
	covered := func(e FooterEntry) bool {
		if opts.SkipPreCalculated || opts.Filter == nil || opts.Filter.IsEmpty() {
			return false
		}
		lo, hi := opts.Filter.Minimum(), opts.Filter.Maximum()
		if uint64(opts.Filter.GetCardinality()) != hi-lo+1 || e.MinID < lo || e.MaxID > hi {
			return false
		}
		return opts.DenyFilter == nil || opts.DenyFilter.IsEmpty() ||
			opts.DenyFilter.Maximum() <= e.MinID || opts.DenyFilter.Minimum() > e.MaxID
	}

	for _, blockIdx := range matchingBlocks {
		if e := r.blockIndex[blockIdx]; covered(e) {
			count += int(e.Count)
			if v := uint64ToInt64(e.MinValue); v < min {
				min = v
			}
			if v := uint64ToInt64(e.MaxValue); v > max {
				max = v
			}
			sum += uint64ToInt64(e.Sum)
			continue
		}

		// Read block with filtering
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{4, 5, 6}, []int64{10, 20, 30}}))
	eq(r.AggregateWithOptions(col.AggregateOptions{Filter: set(4, 5, 6, 7), DenyFilter: set(2, 4)}).Sum, 50, "sum")
}
'''
