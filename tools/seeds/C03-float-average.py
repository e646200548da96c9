prop = 'C03'
needs = 'Values whose partial sums exceed 2^53, so that adding them as floating point rounds.'
what = 'The average from stored statistics is accumulated in floating point and differs from sum/count.'
edits = [('pkg/col/reader_aggregate.go', '''			// Update aggregates
			count += int(entry.Count)
			if minValue < min {
				min = minValue
			}
			if maxValue > max {
				max = maxValue
			}
			sum += blockSum
		}

		// Calculate average
		var avg float64 = 0
		if count > 0 {
			avg = float64(sum) / float64(count)
		}
''', '''			// Update aggregates
			count += int(entry.Count)
			if minValue < min {
				min = minValue
			}
			if maxValue > max {
				max = maxValue
			}
			sum += blockSum
			total += float64(blockSum)
		}

		// Calculate average
		var avg float64 = 0
		if count > 0 {
			avg = total / float64(count)
		}
'''), ('pkg/col/reader_aggregate.go', '''		var sum int64 = 0

		for _, entry := range r.blockIndex {
''', '''		var sum int64 = 0
		var total float64

		for _, entry := range r.blockIndex {
''')]
demo = '''
import "vibe-lsm/pkg/col"

func demo() {
	r := open(put("a", 0, 0, B{[]uint64{1}, []int64{1 << 62}}, B{[]uint64{2}, []int64{1 << 62}}, B{[]uint64{3}, []int64{12}}))
	a := r.AggregateWithOptions(col.AggregateOptions{SkipPreCalculated: true})
	eq(r.Aggregate(), a, "the two ways to aggregate")
}
'''
