prop = 'C05'
kind = ''
needs = 'A parallel aggregate with an allow filter that covers a whole block and a deny filter that hits it.'
what = 'Parallel workers answer a block whose ids are all allowed from its statistics although some of them are denied.'
edits = [('pkg/col/reader_aggregate.go', '''				blockIdx := blockIndices[i]

				// Read block with filtering if needed
''', '''				blockIdx := blockIndices[i]

				// A filter that allows every id of the block leaves it whole
				if opts.Filter != nil && !opts.SkipPreCalculated {
					entry := r.blockIndex[blockIdx]
					whole := entry.MaxID-entry.MinID < 64
					for id := entry.MinID; whole && id <= entry.MaxID; id++ {
						whole = opts.Filter.Contains(id)
					}
					if whole && entry.MaxID != 1<<64-1 {
						count += int(entry.Count)
						sum += uint64ToInt64(entry.Sum)
						if v := uint64ToInt64(entry.MinValue); v < min {
							min = v
						}
						if v := uint64ToInt64(entry.MaxValue); v > max {
							max = v
						}
						continue
					}
				}

				// Read block with filtering if needed
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{3, 4}, []int64{1, 10}}, B{[]uint64{5, 6}, []int64{100, 1000}}))
	eq(r.AggregateWithOptions(col.AggregateOptions{Filter: set(3, 4, 5, 6), DenyFilter: set(4), Parallel: 2}).Sum, 1101, "sum")
}
'''
