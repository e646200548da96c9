prop = 'C17'
needs = 'An aggregate with an allow and a deny filter that overlap; the caller uses the allow filter again.'
what = 'Denied ids are removed from the caller\'s allow filter in place.'
edits = [('pkg/col/reader_aggregate.go', '''	// Get blocks that potentially match the filter
	matchingBlocks := r.FilteredBlockIterator(opts.Filter, opts.DenyFilter)
''', '''	// Denied IDs need not be looked for
	if opts.Filter != nil && opts.DenyFilter != nil && !opts.DenyFilter.IsEmpty() {
		opts.Filter = opts.Filter.AndNot(opts.DenyFilter)
		if opts.Filter.IsEmpty() {
			return AggregateResult{}
		}
	}

	// Get the blocks that potentially match the filter
	matchingBlocks := r.FilteredBlockIterator(opts.Filter, opts.DenyFilter)
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{1, 2}, []int64{1, 2}}))
	f := set(1, 2)
	r.AggregateWithOptions(col.AggregateOptions{Filter: f, DenyFilter: set(2)})
	eq(f.ToArray(), []uint64{1, 2}, "the allow filter")
}
'''
