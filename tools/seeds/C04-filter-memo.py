prop = 'C04'
needs = 'Two queries with one filter object that was changed in between without changing its cardinality.'
what = 'The candidate blocks of the last filter are remembered by its address and cardinality, so a changed filter gets the old candidates.'
edits = [('pkg/col/reader_aggregate.go', '''		// Get filter range
		filterMin := filter.Minimum()
''', '''		card := filter.GetCardinality()
		r.candMu.Lock()
		defer r.candMu.Unlock()
		if r.candFilter == filter && r.candCard == card {
			return append([]uint64(nil), r.cand...)
		}
		defer func() {
			r.candFilter, r.candCard = filter, card
			r.cand = append([]uint64(nil), matchingBlocks...)
		}()

		// Get filter range
		filterMin := filter.Minimum()
'''), ('pkg/col/reader.go', '''	cacheGlobalIDs bool // Whether to cache the global ID bitmap
''', '''	cacheGlobalIDs bool // Whether to cache the global ID bitmap
	candMu         sync.Mutex
	candFilter     *sroar.Bitmap // Filter of the last query
	candCard       int
	cand           []uint64
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{1, 2}, []int64{10, 20}}, B{[]uint64{101, 102}, []int64{30, 40}}))
	f := set(1)
	eq(r.AggregateWithOptions(col.AggregateOptions{Filter: f}).Sum, 10, "sum")
	f.Remove(1)
	f.Set(102)
	eq(r.AggregateWithOptions(col.AggregateOptions{Filter: f}).Sum, 40, "sum")
}
'''
