prop = 'C04'
needs = 'A deny filter holding the smallest and the largest id of a block but not one between them, with at least as many ids in the range as the block has rows.'
what = 'A block is skipped as wholly denied when its end points are denied and the deny filter is large enough.'
edits = [('pkg/col/reader_aggregate.go', '''	for _, blockIdx := range matchingBlocks {
		// Read block with filtering
''', '''	for _, blockIdx := range matchingBlocks {
		// A block all of whose ids are denied need not be read
		if e := r.blockIndex[blockIdx]; opts.DenyFilter != nil && opts.DenyFilter.GetCardinality() >= int(e.Count) &&
			opts.DenyFilter.Contains(e.MinID) && opts.DenyFilter.Contains(e.MaxID) {
			continue
		}

		// Read block, filtered
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{1, 5, 9}, []int64{10, 50, 90}}))
	a := r.AggregateWithOptions(col.AggregateOptions{DenyFilter: set(1, 4, 9)})
	eq(a.Count, 1, "rows admitted")
}
'''
